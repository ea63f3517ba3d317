SPECIFICATION PSpec
CONSTANTS MaxDec = 5
 NSets = 8
INVARIANTS NormalisedInv PositiveInv MovesLegal Reversible NeverEmptySide Partition RowsMatchPath LegalCutsSplit
CHECK_DEADLOCK FALSE
