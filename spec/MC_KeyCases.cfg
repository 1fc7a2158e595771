SPECIFICATION Spec
CONSTANTS Export = 0 N = 2 Wide = FALSE
INVARIANTS Dumped OwnPlace Restored
CHECK_DEADLOCK FALSE
