SPECIFICATION Spec
CONSTANTS Kinds = {"setdes"}  MaxLen = 3  MaxForks = 3  Export = TRUE
INVARIANTS SerByHistory DesByHistory ValByHistory WarnByHistory
PROPERTIES Isolation Snapshot
CHECK_DEADLOCK FALSE
