SPECIFICATION MSpec
CONSTANTS Fresh = TRUE
 MaxFaults = 3
 Trees = 2
 MaxSweep = 3
 Vals = {0, 1}
INVARIANTS RunningTotal Backfit ForestPartition NoiseLast InSampleIsRouting
PROPERTIES SweepComplete
CHECK_DEADLOCK FALSE
