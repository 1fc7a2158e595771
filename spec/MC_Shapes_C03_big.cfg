SPECIFICATION Spec
CONSTANTS Mode = "load"  Wide = TRUE
INVARIANTS LoadConforms LoadTotal
CHECK_DEADLOCK FALSE
