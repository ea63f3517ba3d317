SPECIFICATION MSpec
CONSTANTS
 N = 3
 K = 2
 PERMS = 2
 Shuffling = TRUE
INVARIANTS NoLeak EveryRowOnce OneEach OwnValues
PROPERTIES FoldsKept
CHECK_DEADLOCK FALSE
