SPECIFICATION Spec
CONSTANTS Export = 6000
Wraps = {"top", "list", "opt", "hold"}
CHECK_DEADLOCK FALSE
