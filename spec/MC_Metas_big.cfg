SPECIFICATION Spec
CONSTANTS Export = 0  Wide = TRUE
INVARIANTS UnknownIsError ByPrecedence
CHECK_DEADLOCK FALSE
