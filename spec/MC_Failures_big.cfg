SPECIFICATION Spec
CONSTANTS Export = 0 MaxOut = 3 MaxIn = 2 Wide = TRUE
INVARIANTS LoadFails Described LoadedRest LoadWarns DumpFails DumpedRest DumpWarns
CHECK_DEADLOCK FALSE
