SPECIFICATION MSpec
CONSTANTS
 Guarded = TRUE
 MaxRows = 4
 MaxCols = 2
 Turns = 4
 Chains = 2
INVARIANTS LeafInv NeverEmpty MoveOrNone AnswerInv ConstantMeansNoMove
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
