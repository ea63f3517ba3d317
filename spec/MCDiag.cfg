SPECIFICATION MSpec
VIEW MView
CONSTANTS MaxHist = 4
INVARIANTS Bounds RootIsShallowest OneValuePerRecord
PROPERTIES DrawingsStay DrawingIsPassive
ACTION_CONSTRAINT EmitTransitions
CHECK_DEADLOCK FALSE
