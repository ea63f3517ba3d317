SPECIFICATION MSpec
CONSTANTS MaxBurn = 2
 MaxSamp = 9
 MaxDen = 5
INVARIANTS NoBurnIn FirstKept Even Aligned AtEnd
CHECK_DEADLOCK FALSE
