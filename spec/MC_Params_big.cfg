SPECIFICATION Spec
CONSTANTS Export = FALSE
INVARIANTS Fulfilled Unfulfilled Extra OnlyThose
CHECK_DEADLOCK FALSE
