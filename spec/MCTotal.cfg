SPECIFICATION MSpec
CONSTANTS
 Guarded = TRUE
 MaxRows = 3
 MaxCols = 2
 Turns = 3
 Chains = 2
INVARIANTS LeafInv NeverEmpty MoveOrNone AnswerInv ConstantMeansNoMove EmitMatrices
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
