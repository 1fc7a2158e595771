SPECIFICATION Spec
CONSTANTS Mode = "moments"  Edits = 1  Export = FALSE
INVARIANTS TextKeeps Shape DateKeeps SameInstant
 CHECK_DEADLOCK FALSE
