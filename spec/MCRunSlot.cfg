SPECIFICATION MSpec
CONSTANTS
 NCh = 2
 NData = 1
 Sweeps = 2
 Slot = TRUE
 Forked = FALSE
 Printing = FALSE
INVARIANTS OwnModel OwnData OutComplete NoDrawTwice ResultsInOrder EstimatorKept
ACTION_CONSTRAINT EmitSchedules
CHECK_DEADLOCK FALSE
VIEW NoSched
