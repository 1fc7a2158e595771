SPECIFICATION Spec
CONSTANTS Mode = "load"  Wide = FALSE
INVARIANTS LoadConforms LoadTotal
CHECK_DEADLOCK FALSE
