SPECIFICATION Spec
CONSTANTS Mode = "texts"  Edits = 2  Export = FALSE
INVARIANTS TextParses DateParses TimeParses OneMeaning
 CHECK_DEADLOCK FALSE
