SPECIFICATION MSpec
CONSTANTS MaxHist = 6
 MaxIds = 20
 MaxSnaps = 2
 Deep = TRUE
INVARIANTS Immutable Contained Disjoint LiveSound
ACTION_CONSTRAINT EmitTransitions
CHECK_DEADLOCK FALSE
