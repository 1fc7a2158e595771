SPECIFICATION Spec
CONSTANTS On <- OnB  Regs <- RegsB  Lookups = 3  Export = FALSE
INVARIANTS Undisturbed OwnFork NothingStale
PROPERTY Terminates
CHECK_DEADLOCK FALSE
