SPECIFICATION Spec
CONSTANTS MaxLen = 5  Export = TRUE

CHECK_DEADLOCK FALSE
