SPECIFICATION MSpec
VIEW MView
CONSTANTS MaxHist = 4
 MaxEst = 2
INVARIANTS OnlyLatest
PROPERTIES CloneUnfitted OthersUntouched
ACTION_CONSTRAINT EmitTransitions
CHECK_DEADLOCK FALSE
