SPECIFICATION Spec
CONSTANTS Mode = "load"  Wide = TRUE
INVARIANTS StrictRefines StrictNames
CHECK_DEADLOCK FALSE
