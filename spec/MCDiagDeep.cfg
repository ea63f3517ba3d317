SPECIFICATION MSpec
VIEW MView
CONSTANTS MaxHist = 6
INVARIANTS Bounds RootIsShallowest OneValuePerRecord
PROPERTIES DrawingsStay DrawingIsPassive
ACTION_CONSTRAINT EmitTransitions
CHECK_DEADLOCK FALSE
