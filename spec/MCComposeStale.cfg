SPECIFICATION MSpec
CONSTANTS
 Mode = "stale"
 Steps = 4
 MaxE = 3
INVARIANTS NoLeak CloneFresh CopySame FitCurrent 
PROPERTIES Frame
CHECK_DEADLOCK FALSE
