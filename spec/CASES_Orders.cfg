SPECIFICATION Spec
CONSTANTS Export = TRUE MaxLen = 3 MaxRegs = 1
CHECK_DEADLOCK FALSE
