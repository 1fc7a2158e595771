SPECIFICATION Spec
CONSTANTS Mode = "value"  Wide = TRUE
INVARIANTS SelfDescribing
CHECK_DEADLOCK FALSE
