SPECIFICATION Spec
CONSTANTS N = 4  T = 3  Export = FALSE
INVARIANTS AsSequential ExactlyOnce NothingLeft
PROPERTY Terminates
CHECK_DEADLOCK FALSE
