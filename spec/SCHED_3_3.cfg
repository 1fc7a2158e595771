SPECIFICATION Spec
CONSTANTS N = 3  T = 3  Export = TRUE
INVARIANTS AsSequential ExactlyOnce NothingLeft
CHECK_DEADLOCK FALSE
