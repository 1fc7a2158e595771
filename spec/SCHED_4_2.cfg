SPECIFICATION Spec
CONSTANTS N = 4  T = 2  Export = TRUE
INVARIANTS AsSequential ExactlyOnce NothingLeft
CHECK_DEADLOCK FALSE
