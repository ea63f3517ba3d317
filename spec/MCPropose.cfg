SPECIFICATION PSpec
CONSTANTS MaxDec = 3
 NSets = 8
INVARIANTS NormalisedInv PositiveInv MovesLegal Reversible NeverEmptySide Partition RowsMatchPath LegalCutsSplit
CHECK_DEADLOCK FALSE
