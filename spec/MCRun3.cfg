SPECIFICATION MSpec
CONSTANTS
 NCh = 3
 NData = 1
 Sweeps = 2
 Slot = FALSE
 Forked = FALSE
 Printing = TRUE
INVARIANTS OwnModel OwnData OutComplete NoDrawTwice ResultsInOrder EstimatorKept
ACTION_CONSTRAINT EmitSchedules
CHECK_DEADLOCK FALSE

