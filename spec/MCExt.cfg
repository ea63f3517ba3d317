SPECIFICATION MSpec
VIEW MView
CONSTANTS MaxHist = 4
 MaxExt = 2
 Shared = FALSE
INVARIANTS HalvesAgree LastFitOnly
PROPERTIES ClonesKeepSpec
ACTION_CONSTRAINT EmitTransitions
CHECK_DEADLOCK FALSE
