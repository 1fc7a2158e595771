SPECIFICATION Spec
CONSTANTS On <- OnD  Regs <- RegsD  Lookups = 2  Export = TRUE
INVARIANTS Undisturbed OwnFork NothingStale
CHECK_DEADLOCK FALSE
