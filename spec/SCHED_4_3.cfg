SPECIFICATION Spec
CONSTANTS N = 4  T = 3  Export = TRUE
INVARIANTS AsSequential ExactlyOnce NothingLeft
CHECK_DEADLOCK FALSE
