SPECIFICATION Spec
CONSTANTS Mode = "export"  Wide = TRUE
CHECK_DEADLOCK FALSE
