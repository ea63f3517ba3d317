SPECIFICATION MSpec
CONSTANTS MaxHist = 5
 MaxIds = 16
 MaxSnaps = 2
 Deep = FALSE
INVARIANTS Immutable Contained Disjoint LiveSound
CHECK_DEADLOCK FALSE
