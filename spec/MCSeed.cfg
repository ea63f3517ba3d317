SPECIFICATION MLive
CONSTANTS Mode = "seeded"
 Size = 2
 Need = 3
 Workers = 2
 MaxProg = 3
INVARIANTS SameResults
PROPERTIES BothFinish
ACTION_CONSTRAINT EmitPrograms
CHECK_DEADLOCK FALSE
