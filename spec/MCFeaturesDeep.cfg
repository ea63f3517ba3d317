SPECIFICATION MSpec
CONSTANTS P = 3
 MaxNull = 3
 Use = {1, 3, 4, 5, 6, 8}
INVARIANTS SharesSumToOne UnusedAreZero LocalBelowGlobal Monotone Extremes OwnNullKeepsNone MaskWidth EmitForests
ACTION_CONSTRAINT EmitSelections
CHECK_DEADLOCK FALSE
