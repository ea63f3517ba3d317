SPECIFICATION MSpec
CONSTANTS Size = 1
 MaxHist = 5
 MaxSources = 3
INVARIANTS Once Unshared NothingLost NeverDry
ACTION_CONSTRAINT EmitTransitions
CHECK_DEADLOCK FALSE
