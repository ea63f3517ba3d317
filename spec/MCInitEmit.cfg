SPECIFICATION MSpec
CONSTANTS NTrees = 1
 Emit = TRUE
INVARIANTS SameAsArrays Consistent InTurn
CHECK_DEADLOCK FALSE
