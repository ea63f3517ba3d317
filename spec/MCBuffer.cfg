SPECIFICATION MSpec
CONSTANTS Size = 2
 MaxHist = 7
 MaxSources = 3
INVARIANTS Once Unshared NothingLost NeverDry
ACTION_CONSTRAINT EmitTransitions
CHECK_DEADLOCK FALSE
