SPECIFICATION MCSpec
VIEW MCView
CONSTANTS MaxDec = 3
 MaxHist = 6
 NSets = 4
 UseY = TRUE
 UseVal = FALSE
INVARIANTS Partition RowsMatchPath ChildrenSplit Shape CarriedSums CacheInheritance LegalCutsSplit RoutingUnique
PROPERTIES GrowPruneInverse PruneGivesBack
CHECK_DEADLOCK FALSE
