SPECIFICATION Spec
CONSTANTS Mode = "export"  Wide = FALSE
CHECK_DEADLOCK FALSE
