SPECIFICATION Spec
CONSTANTS Export = FALSE MaxLen = 3 MaxRegs = 2
INVARIANTS OnlyRegsMatter Unconcerned
CHECK_DEADLOCK FALSE
