SPECIFICATION MSpec
CONSTANTS
 NCh = 2
 NData = 2
 Sweeps = 1
 Slot = FALSE
 Forked = FALSE
 Printing = FALSE
INVARIANTS OwnModel OwnData OutComplete NoDrawTwice ResultsInOrder EstimatorKept
ACTION_CONSTRAINT EmitSchedules
CHECK_DEADLOCK FALSE
VIEW NoSched
