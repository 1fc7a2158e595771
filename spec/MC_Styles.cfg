SPECIFICATION Spec
CONSTANTS MaxLen = 4  Export = FALSE
INVARIANTS Idempotent Converts Restores KeepsLetters
CHECK_DEADLOCK FALSE
