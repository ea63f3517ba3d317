SPECIFICATION MSpec
CONSTANTS Fresh = TRUE
 MaxFaults = 1
 Trees = 3
 MaxSweep = 2
 Vals = {1, 3}
INVARIANTS RunningTotal Backfit ForestPartition NoiseLast InSampleIsRouting
PROPERTIES SweepComplete
CHECK_DEADLOCK FALSE
