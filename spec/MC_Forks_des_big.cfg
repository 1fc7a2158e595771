SPECIFICATION Spec
CONSTANTS Kinds = {"setdes", "fork"}  MaxLen = 4  MaxForks = 3  Export = FALSE
INVARIANTS SerByHistory DesByHistory ValByHistory WarnByHistory
PROPERTIES Isolation Snapshot
CHECK_DEADLOCK FALSE
