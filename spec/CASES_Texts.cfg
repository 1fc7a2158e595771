SPECIFICATION Spec
CONSTANTS Mode = "texts"  Edits = 1  Export = TRUE
CHECK_DEADLOCK FALSE
