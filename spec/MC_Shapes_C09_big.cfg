SPECIFICATION Spec
CONSTANTS Mode = "value"  Wide = TRUE
INVARIANTS KeyTrip
CHECK_DEADLOCK FALSE
