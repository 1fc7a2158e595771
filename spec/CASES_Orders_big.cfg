SPECIFICATION Spec
CONSTANTS Export = TRUE MaxLen = 3 MaxRegs = 2
CHECK_DEADLOCK FALSE
