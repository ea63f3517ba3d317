SPECIFICATION MSpec
CONSTANTS Size = 3
 MaxHist = 9
 MaxSources = 3
INVARIANTS Once Unshared NothingLost NeverDry
ACTION_CONSTRAINT EmitTransitions
CHECK_DEADLOCK FALSE
