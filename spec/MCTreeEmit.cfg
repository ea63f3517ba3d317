SPECIFICATION MCSpec
VIEW MCView
CONSTANTS MaxDec = 2
 MaxHist = 5
 NSets = 6
 UseY = TRUE
 UseVal = TRUE
ACTION_CONSTRAINT EmitTransitions
CHECK_DEADLOCK FALSE
