SPECIFICATION Spec
CONSTANTS Export = 9000 N = 3 Wide = FALSE
CHECK_DEADLOCK FALSE
