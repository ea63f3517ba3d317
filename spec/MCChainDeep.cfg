SPECIFICATION MSpec
CONSTANTS MaxBurn = 3
 MaxSamp = 40
 MaxDen = 12
INVARIANTS NoBurnIn FirstKept Even Aligned AtEnd
CHECK_DEADLOCK FALSE
