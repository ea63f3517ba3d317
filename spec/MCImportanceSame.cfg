SPECIFICATION MSpec
CONSTANTS
 N = 6
 K = 2
 PERMS = 3
 Shuffling = FALSE
INVARIANTS NoLeak EveryRowOnce OneEach OwnValues
PROPERTIES FoldsKept
CHECK_DEADLOCK FALSE
