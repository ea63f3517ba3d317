SPECIFICATION MSpec
CONSTANTS P = 3
 MaxNull = 2
 Use = {1, 2, 3, 4, 7}
INVARIANTS SharesSumToOne UnusedAreZero LocalBelowGlobal Monotone Extremes OwnNullKeepsNone MaskWidth EmitForests
ACTION_CONSTRAINT EmitSelections
CHECK_DEADLOCK FALSE
