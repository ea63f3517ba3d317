SPECIFICATION MLive
CONSTANTS Mode = "seeded"
 Size = 2
 Need = 2
 Workers = 3
 MaxProg = 3
INVARIANTS SameResults
PROPERTIES BothFinish
ACTION_CONSTRAINT EmitPrograms
CHECK_DEADLOCK FALSE
