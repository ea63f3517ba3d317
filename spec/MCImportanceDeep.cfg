SPECIFICATION MSpec
CONSTANTS
 N = 4
 K = 3
 PERMS = 1
 Shuffling = TRUE
INVARIANTS NoLeak EveryRowOnce OneEach OwnValues
PROPERTIES FoldsKept
CHECK_DEADLOCK FALSE
