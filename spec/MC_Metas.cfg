SPECIFICATION Spec
CONSTANTS Export = 0  Wide = FALSE
INVARIANTS UnknownIsError ByPrecedence
CHECK_DEADLOCK FALSE
