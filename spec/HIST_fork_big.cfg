SPECIFICATION Spec
CONSTANTS Kinds = {"setser", "setval", "suppress", "suppresscode", "fork"}  MaxLen = 3  MaxForks = 3  Export = TRUE
INVARIANTS SerByHistory DesByHistory ValByHistory WarnByHistory
PROPERTIES Isolation Snapshot
CHECK_DEADLOCK FALSE
