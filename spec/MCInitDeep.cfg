SPECIFICATION MSpec
CONSTANTS NTrees = 3
 Emit = FALSE
INVARIANTS Consistent InTurn
CHECK_DEADLOCK FALSE
