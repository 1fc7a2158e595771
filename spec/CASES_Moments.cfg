SPECIFICATION Spec
CONSTANTS Mode = "moments"  Edits = 1  Export = TRUE
CHECK_DEADLOCK FALSE
