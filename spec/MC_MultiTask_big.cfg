SPECIFICATION Spec
CONSTANTS N = 5  T = 3  Export = FALSE
INVARIANTS AsSequential ExactlyOnce NothingLeft
PROPERTY Terminates
CHECK_DEADLOCK FALSE
