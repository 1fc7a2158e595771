SPECIFICATION Spec
CONSTANTS On <- OnA  Regs <- RegsA  Lookups = 2  Export = FALSE
INVARIANTS Undisturbed OwnFork NothingStale
PROPERTY Terminates
CHECK_DEADLOCK FALSE
