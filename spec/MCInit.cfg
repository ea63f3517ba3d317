SPECIFICATION MSpec
CONSTANTS NTrees = 2
 Emit = FALSE
INVARIANTS Consistent InTurn
CHECK_DEADLOCK FALSE
