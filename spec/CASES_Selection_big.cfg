SPECIFICATION Spec
CONSTANTS Export = 60000
Wraps = {"top", "list", "dict", "opt", "tuple", "nt", "hold", "holdlist", "holdhold"}
CHECK_DEADLOCK FALSE
