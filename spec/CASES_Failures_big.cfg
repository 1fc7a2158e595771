SPECIFICATION Spec
CONSTANTS Export = 400 MaxOut = 3 MaxIn = 2 Wide = TRUE
CHECK_DEADLOCK FALSE
