SPECIFICATION Spec
CONSTANTS MaxLen = 5  Export = FALSE
INVARIANTS Idempotent Converts Restores KeepsLetters
CHECK_DEADLOCK FALSE
