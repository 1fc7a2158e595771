SPECIFICATION Spec
CONSTANTS Kinds = {"suppress", "suppresscode", "fork"}  MaxLen = 4  MaxForks = 3  Export = TRUE
INVARIANTS SerByHistory DesByHistory ValByHistory WarnByHistory
PROPERTIES Isolation Snapshot
CHECK_DEADLOCK FALSE
