SPECIFICATION Spec
CONSTANTS Export = 100000 N = 4 Wide = TRUE
CHECK_DEADLOCK FALSE
