SPECIFICATION Spec
CONSTANTS Export = FALSE MaxLen = 2 MaxRegs = 1
INVARIANTS OnlyRegsMatter Unconcerned
CHECK_DEADLOCK FALSE
