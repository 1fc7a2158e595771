SPECIFICATION Spec
CONSTANTS Export = 120 MaxOut = 3 MaxIn = 2 Wide = TRUE
CHECK_DEADLOCK FALSE
