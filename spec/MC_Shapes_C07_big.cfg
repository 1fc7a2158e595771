SPECIFICATION Spec
CONSTANTS Mode = "load"  Wide = TRUE
INVARIANTS NoneAllowed NoneKept
CHECK_DEADLOCK FALSE
