SPECIFICATION Spec
CONSTANTS Kinds = {"suppress", "suppresscode", "fork"}  MaxLen = 5  MaxForks = 3  Export = TRUE
INVARIANTS SerByHistory DesByHistory ValByHistory WarnByHistory
PROPERTIES Isolation Snapshot
CHECK_DEADLOCK FALSE
