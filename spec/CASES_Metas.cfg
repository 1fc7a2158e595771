SPECIFICATION Spec
CONSTANTS Export = 8000  Wide = TRUE
CHECK_DEADLOCK FALSE
