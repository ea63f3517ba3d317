SPECIFICATION MSpec
CONSTANTS Fresh = TRUE
 MaxFaults = 1
 Trees = 2
 MaxSweep = 2
 Vals = {0, 1}
INVARIANTS RunningTotal Backfit ForestPartition NoiseLast InSampleIsRouting
PROPERTIES SweepComplete
CHECK_DEADLOCK FALSE
