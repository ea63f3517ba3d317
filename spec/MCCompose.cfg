SPECIFICATION MSpec
CONSTANTS
 Mode = "sound"
 Steps = 3
 MaxE = 3
INVARIANTS NoLeak CloneFresh CopySame FitCurrent Emit
PROPERTIES Frame
CHECK_DEADLOCK FALSE
