SPECIFICATION Spec
CONSTANTS Export = 0
Wraps = {"top", "list", "dict", "opt", "tuple", "nt", "hold", "holdlist", "holdhold"}
INVARIANTS Dumped Present Absent NothingElse
CHECK_DEADLOCK FALSE
