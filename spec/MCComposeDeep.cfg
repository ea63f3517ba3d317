SPECIFICATION MSpec
CONSTANTS
 Mode = "sound"
 Steps = 5
 MaxE = 4
INVARIANTS NoLeak CloneFresh CopySame FitCurrent 
PROPERTIES Frame
CHECK_DEADLOCK FALSE
