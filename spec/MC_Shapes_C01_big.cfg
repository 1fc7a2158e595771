SPECIFICATION Spec
CONSTANTS Mode = "value"  Wide = TRUE
INVARIANTS DumpNative ValConforms
CHECK_DEADLOCK FALSE
