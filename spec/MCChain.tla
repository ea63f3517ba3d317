-------------------------------- MODULE MCChain -------------------------------
EXTENDS BartChain
CONSTANTS MaxBurn, MaxSamp, MaxDen
MInit == \E b \in 0..MaxBurn, s \in 0..MaxSamp, d \in 1..MaxDen, p, a \in BOOLEAN : \E n \in 1..d :
            CInit([burn |-> b, samp |-> s, tn |-> n, td |-> d, wantp |-> p, wanta |-> a])
MSpec == MInit /\ [][Sweep]_cvars
===============================================================================
