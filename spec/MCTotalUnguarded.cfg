SPECIFICATION MSpec
CONSTANTS
 Guarded = FALSE
 MaxRows = 2
 MaxCols = 2
 Turns = 3
 Chains = 2
INVARIANTS LeafInv NeverEmpty MoveOrNone AnswerInv ConstantMeansNoMove
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
