------------------------------ MODULE BartGibbs -------------------------------
(* The Gibbs sweep of the sum-of-trees model (bartpy.model.Model.refreshed_trees,  *)
(* bartpy.samplers.schedule): trees are taken in hand one by one, given the         *)
(* residual of all others as target, restructured, their leaves redrawn, put back;  *)
(* after the last one the noise scale is drawn.  run is the running total the       *)
(* implementation keeps: the prediction of all trees but the one in hand.           *)
(* A sweep can be given up anywhere (a sampler raises, the caller stops iterating)   *)
(* and leaf values can be edited between sweeps; the next sweep must start from the  *)
(* trees as they are.  Fresh = FALSE keeps the running total across sweeps instead   *)
(* of adding it up anew, as the repository did before commit bc2931c; RunningTotal and *)
(* Backfit fail there.                                                                *)
EXTENDS BartData
CONSTANT Fresh

VARIABLES X, Y,       \* covariates and normalised target
          forest,     \* sequence of trees [dec, lv]
          frows,      \* rows of the nodes of each tree
          run,        \* running total
          hand,       \* index of the tree in hand, 0 for none
          seen,       \* target the tree in hand was given
          restr,      \* the tree in hand had its structure step
          drawn,      \* leaves of the tree in hand that were redrawn
          done,       \* trees already updated in this sweep
          noisy,      \* the noise scale was drawn in this sweep
          sweep       \* sweeps completed
gvars == <<X, Y, forest, frows, run, hand, seen, restr, drawn, done, noisy, sweep>>

NT == Len(forest)
TreePred(k) == [r \in 1..Len(X) |-> forest[k].lv[CHOOSE i \in DOMAIN forest[k].lv : r \in frows[k][i]]]
AllPreds == [k \in 1..NT |-> TreePred(k)]
PlusV(a, b) == [r \in DOMAIN a |-> a[r] + b[r]]
MinusV(a, b) == [r \in DOMAIN a |-> a[r] - b[r]]
RECURSIVE AddUp(_, _, _)
AddUp(ps, k, skip) == IF k = 0 THEN [r \in 1..Len(X) |-> 0]
                      ELSE IF k = skip THEN AddUp(ps, k - 1, skip) ELSE PlusV(ps[k], AddUp(ps, k - 1, skip))
Total == AddUp(AllPreds, NT, 0)
Others(k) == AddUp(AllPreds, NT, k)

RECURSIVE PathRowsAll(_, _, _)
PathRowsAll(t, i, S) ==
    IF i \in DOMAIN t.dec
    THEN (i :> S) @@ PathRowsAll(t, Left(i), LeftRows(X, S, t.dec[i][1], t.dec[i][2]))
                  @@ PathRowsAll(t, Right(i), RightRows(X, S, t.dec[i][1], t.dec[i][2]))
    ELSE (i :> S)

GInit(x0, y0, f0) ==
    /\ X = x0 /\ Y = y0
    /\ forest = f0
    /\ frows = [k \in 1..Len(f0) |-> PathRowsAll(f0[k], 1, RowsOf(X))]
    /\ run = Total
    /\ hand = 0 /\ seen = << >> /\ restr = FALSE /\ drawn = {} /\ done = {} /\ noisy = FALSE /\ sweep = 0

Take(k) ==
    /\ hand = 0 /\ ~noisy /\ k \in (1..NT) \ done
    /\ run' = MinusV(run, TreePred(k))
    /\ seen' = MinusV(Y, run')
    /\ hand' = k /\ restr' = FALSE /\ drawn' = {}
    /\ UNCHANGED <<X, Y, forest, frows, done, noisy, sweep>>
Restructure(t1) ==      \* t1: the tree in hand after its structure step (possibly unchanged)
    /\ hand # 0 /\ ~restr
    /\ restr' = TRUE
    /\ forest' = [forest EXCEPT ![hand] = t1]
    /\ frows' = [frows EXCEPT ![hand] = PathRowsAll(t1, 1, RowsOf(X))]
    /\ UNCHANGED <<X, Y, run, hand, seen, drawn, done, noisy, sweep>>
DrawLeaf(i, x) ==
    /\ hand # 0 /\ restr
    /\ i \in DOMAIN forest[hand].lv \ drawn
    /\ forest' = [forest EXCEPT ![hand] = SetLeaf(forest[hand], i, x)]
    /\ drawn' = drawn \cup {i}
    /\ UNCHANGED <<X, Y, frows, run, hand, seen, restr, done, noisy, sweep>>
PutBack ==
    /\ hand # 0 /\ restr /\ drawn = DOMAIN forest[hand].lv
    /\ run' = PlusV(run, TreePred(hand))
    /\ done' = done \cup {hand}
    /\ hand' = 0 /\ seen' = << >> /\ restr' = FALSE /\ drawn' = {}
    /\ UNCHANGED <<X, Y, forest, frows, noisy, sweep>>
DrawNoise ==
    /\ hand = 0 /\ done = 1..NT /\ ~noisy
    /\ noisy' = TRUE
    /\ UNCHANGED <<X, Y, forest, frows, run, hand, seen, restr, drawn, done, sweep>>
EndSweep ==
    /\ noisy
    /\ sweep' = sweep + 1
    /\ done' = {} /\ noisy' = FALSE
    /\ UNCHANGED <<X, Y, forest, frows, run, hand, seen, restr, drawn>>

Abandon ==
    /\ hand # 0 \/ done # {} \/ noisy
    /\ hand' = 0 /\ seen' = << >> /\ restr' = FALSE /\ drawn' = {} /\ done' = {} /\ noisy' = FALSE
    /\ run' = IF Fresh THEN Total ELSE run
    /\ UNCHANGED <<X, Y, forest, frows, sweep>>
EditLeaf(k, i, x) ==
    /\ hand = 0 /\ done = {} /\ ~noisy
    /\ k \in 1..NT /\ i \in DOMAIN forest[k].lv
    /\ LET t1 == SetLeaf(forest[k], i, x)
           r1 == [r \in 1..Len(X) |-> IF r \in frows[k][i] THEN run[r] - forest[k].lv[i] + x ELSE run[r]]
       IN  forest' = [forest EXCEPT ![k] = t1] /\ run' = IF Fresh THEN r1 ELSE run
    /\ UNCHANGED <<X, Y, frows, hand, seen, restr, drawn, done, noisy, sweep>>

\* C06
RunningTotal == run = IF hand = 0 THEN Total ELSE Others(hand)
Backfit == hand # 0 => seen = MinusV(Y, Others(hand))
ForestPartition == \A k \in 1..NT : /\ UNION {frows[k][i] : i \in DOMAIN forest[k].lv} = RowsOf(X)
                                    /\ \A i, j \in DOMAIN forest[k].lv : i # j => frows[k][i] \cap frows[k][j] = {}
NoiseLast == noisy => done = 1..NT
\* C05
InSampleIsRouting == \A k \in 1..NT : TreePred(k) = PredictAll(X, forest[k])
===============================================================================
