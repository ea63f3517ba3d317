SPECIFICATION MSpec
CONSTANTS
 Mode = "sound"
 MaxBurn = 0
 MaxSamp = 1
 MaxSteps = 2
 Kinds = {1, 2}
 Msgs = {0, 1, 2}
 EmitOn = FALSE
INVARIANTS OneAtATime RunOnce AllLogged OneLogger Sweeps Shares NoHoles Stored 
CHECK_DEADLOCK FALSE
