SPECIFICATION Spec
CONSTANTS Export = 0
Wraps = {"top", "list", "opt", "hold"}
INVARIANTS Dumped Present Absent NothingElse
CHECK_DEADLOCK FALSE
