SPECIFICATION MSpec
CONSTANTS
 Mode = "sound"
 MaxBurn = 1
 MaxSamp = 2
 MaxSteps = 1
 Kinds = {1, 2}
 Msgs = {0, 1, 2}
 EmitOn = TRUE
INVARIANTS OneAtATime RunOnce AllLogged OneLogger Sweeps Shares NoHoles Stored Emit
CHECK_DEADLOCK FALSE
