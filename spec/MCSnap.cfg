SPECIFICATION MSpec
CONSTANTS MaxHist = 5
 MaxIds = 16
 MaxSnaps = 2
 Deep = TRUE
INVARIANTS Immutable Contained Disjoint LiveSound
ACTION_CONSTRAINT EmitTransitions
CHECK_DEADLOCK FALSE
