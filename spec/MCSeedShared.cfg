SPECIFICATION MSpec
CONSTANTS Mode = "shared"
 Size = 2
 Need = 2
 Workers = 2
 MaxProg = 1
INVARIANTS SameResults

CHECK_DEADLOCK FALSE
