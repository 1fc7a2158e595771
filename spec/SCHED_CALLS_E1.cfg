SPECIFICATION Spec
CONSTANTS On <- OnE  Regs <- RegsD  Lookups = 1  Export = TRUE
INVARIANTS Undisturbed OwnFork NothingStale
CHECK_DEADLOCK FALSE
