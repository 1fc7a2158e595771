SPECIFICATION Spec
CONSTANTS MaxLen = 4  Export = TRUE

CHECK_DEADLOCK FALSE
