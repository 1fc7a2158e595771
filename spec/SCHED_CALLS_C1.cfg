SPECIFICATION Spec
CONSTANTS On <- OnC  Regs <- RegsC  Lookups = 1  Export = TRUE
INVARIANTS Undisturbed OwnFork NothingStale
CHECK_DEADLOCK FALSE
