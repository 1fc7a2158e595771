SPECIFICATION Spec
CONSTANTS Export = 0 MaxOut = 2 MaxIn = 2 Wide = FALSE
INVARIANTS LoadFails Described LoadedRest LoadWarns DumpFails DumpedRest DumpWarns
CHECK_DEADLOCK FALSE
