SPECIFICATION Spec
CONSTANTS Export = 0 N = 4 Wide = TRUE
INVARIANTS Dumped OwnPlace Restored
CHECK_DEADLOCK FALSE
