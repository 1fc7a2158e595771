SPECIFICATION Spec
CONSTANTS Mode = "value"  Wide = TRUE
INVARIANTS RoundTrip
CHECK_DEADLOCK FALSE
