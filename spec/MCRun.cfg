SPECIFICATION MSpec
CONSTANTS
 NCh = 1
 NData = 2
 Sweeps = 3
 Slot = FALSE
 Forked = FALSE
 Printing = TRUE
INVARIANTS OwnModel OwnData OutComplete NoDrawTwice ResultsInOrder EstimatorKept
ACTION_CONSTRAINT EmitSchedules
CHECK_DEADLOCK FALSE

