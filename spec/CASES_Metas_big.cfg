SPECIFICATION Spec
CONSTANTS Export = 80000  Wide = TRUE
CHECK_DEADLOCK FALSE
