SPECIFICATION Spec
CONSTANTS Mode = "texts"  Edits = 1  Export = FALSE
INVARIANTS TextParses DateParses TimeParses OneMeaning
 CHECK_DEADLOCK FALSE
