-------------------------------- MODULE MCSeed --------------------------------
EXTENDS BartSeed, TLC, Json
CONSTANT MaxProg
Progs == UNION {[1..n -> {"seed", "fit", "workers"}] : n \in 1..MaxProg}
MInit == \E p \in Progs : SInit(<<"seed">> \o p)
MSpec == MInit /\ [][SNext]_svars
\* every program, for the real thing
EmitPrograms == (at[1] = 1 /\ at'[1] = 2 /\ at[2] = 1) => PrintT("@T" \o ToJson(prog))
BothFinish == <>(\A x \in Exec : ~More(x))
MLive == MSpec /\ WF_svars(SNext)
===============================================================================
