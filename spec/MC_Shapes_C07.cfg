SPECIFICATION Spec
CONSTANTS Mode = "load"  Wide = FALSE
INVARIANTS NoneAllowed NoneKept
CHECK_DEADLOCK FALSE
