SPECIFICATION Spec
CONSTANTS Mode = "texts"  Edits = 2  Export = TRUE
CHECK_DEADLOCK FALSE
