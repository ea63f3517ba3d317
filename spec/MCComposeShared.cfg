SPECIFICATION MSpec
CONSTANTS
 Mode = "shared"
 Steps = 4
 MaxE = 3
INVARIANTS NoLeak CloneFresh CopySame FitCurrent 
PROPERTIES Frame
CHECK_DEADLOCK FALSE
