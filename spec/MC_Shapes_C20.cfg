SPECIFICATION Spec
CONSTANTS Mode = "load"  Wide = FALSE
INVARIANTS StrictRefines StrictNames
CHECK_DEADLOCK FALSE
