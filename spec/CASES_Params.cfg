SPECIFICATION Spec
CONSTANTS Export = TRUE
CHECK_DEADLOCK FALSE
