SPECIFICATION MCSpec
VIEW MCView
CONSTANTS MaxDec = 3
 MaxHist = 6
 NSets = 6
 UseY = TRUE
 UseVal = FALSE
ACTION_CONSTRAINT EmitTransitions
CHECK_DEADLOCK FALSE
