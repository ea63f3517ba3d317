SPECIFICATION MSpec
CONSTANTS
 Mode = "holes"
 MaxBurn = 1
 MaxSamp = 2
 MaxSteps = 2
 Kinds = {1, 2}
 Msgs = {0, 1, 2}
 EmitOn = FALSE
INVARIANTS OneAtATime RunOnce AllLogged OneLogger Sweeps Shares NoHoles Stored 
CHECK_DEADLOCK FALSE
