------------------------------- MODULE MCGibbs --------------------------------
EXTENDS BartGibbs
CONSTANTS Trees, MaxSweep, Vals, MaxFaults
VARIABLE faults
X0 == << <<1>>, <<2>>, <<2>> >>
Y0 == <<2, 0 - 1, 3>>
MInit == GInit(X0, Y0, [k \in 1..Trees |-> StumpTree(0)]) /\ faults = 0
Shapes(t) == {t} \cup (IF 1 \in DOMAIN t.lv THEN {GrowTree(t, 1, 1, 1)} ELSE {PruneTree(t, 1)})
Work ==  \/ (sweep < MaxSweep /\ \E k \in 1..Trees : Take(k))
         \/ (hand # 0 /\ \E t1 \in Shapes(forest[hand]) : Restructure(t1))
         \/ (hand # 0 /\ \E i \in DOMAIN forest[hand].lv : \E x \in Vals : DrawLeaf(i, x))
         \/ PutBack \/ DrawNoise \/ EndSweep
Fault == \/ Abandon
         \/ (sweep < MaxSweep /\ \E k \in 1..Trees : \E i \in DOMAIN forest[k].lv : \E x \in Vals \ {forest[k].lv[i]} : EditLeaf(k, i, x))
MNext == \/ (Work /\ UNCHANGED faults)
         \/ (faults < MaxFaults /\ Fault /\ faults' = faults + 1)
MSpec == MInit /\ [][MNext]_<<gvars, faults>>
SweepComplete == [][ (sweep' = sweep + 1) => (done = 1..Trees /\ noisy) ]_gvars
===============================================================================
