SPECIFICATION MSpec
VIEW MView
CONSTANTS MaxHist = 4
 MaxExt = 2
 Shared = TRUE
INVARIANTS HalvesAgree
CHECK_DEADLOCK FALSE
