------------------------------ MODULE TraceInit -------------------------------
(* Recorded initialisations.  Tr.x covariates (ranks), Tr.Q query matrices, Tr.y the      *)
(* normalised target in 10^-6; leaf values and predictions in 10^-6.                         *)
EXTENDS TreeObs
VARIABLES forest, turn, seen
vars == <<tvars, forest, turn, seen, lvars>>
I == INSTANCE BartInit
TInit == LInit /\ I!Start(Tr.x, Tr.y, Tr.m) /\ tree = StumpTree(0) /\ rows = (1 :> RowsOf(Tr.x))
VecNear(got, want, tol) == Len(got) = Len(want) /\ \A r \in 1..Len(want) : Near(got[r], want[r], tol)
Bad(fails) == \E f \in fails : f[1] \in {"C16.root", "C16.nodes"}

(* a conversion: arrays e.a, the tree e.o, predictions of the sklearn tree e.sk and of the tree e.got for query e.q *)
RowFails(t, o, tag) ==
    LET hof == HeapOf(t, o) IN
    Clause(tag \o "rows", \A i \in 1..Len(o.g) : ToSetOf(o.rows[i]) = PathRows(X, t, hof[i]) /\ NoRepeats(o.rows[i]), <<"rows of the nodes", o.rows>>)
MapFails(e) ==
    LET t == I!MapTree(e.a) st == StructFails(t, e.o, "C16.", "C16.") IN
    st \cup (IF Bad(st) THEN {} ELSE RowFails(t, e.o, "C16."))
    \cup Clause("C16.samepredictions", e.got = e.sk, <<"sklearn", e.sk, "bartpy", e.got>>)
    \cup Clause("C16.routing", e.got = [r \in 1..Len(Tr.Q[e.q]) |-> I!ArrPredict(e.a, Tr.Q[e.q][r])], <<"got", e.got>>)
    \cup (IF Has(e, "pin") THEN Clause("C16.insample", e.pin = PredictAll(X, t), <<"expected", PredictAll(X, t), "got", e.pin>>) ELSE {})

(* tree turn + 1 was initialised: fitted to e.y with covariates as given (e.x = 1), giving arrays e.a *)
TurnFails(e) == Clause("C16.inturn", VecNear(e.y, I!TargetOf(forest, turn + 1), 4 + 2 * Len(forest)), <<"tree", turn + 1, "expected", I!TargetOf(forest, turn + 1), "fitted to", e.y>>)
                \cup Clause("C16.covariates", e.x = 1, "fitted to other covariates")
                \cup Clause("C16.depth", e.depth <= Tr.maxdepth, <<"depth", e.depth, "allowed", Tr.maxdepth>>)

(* the whole model: e.trees[k] = observation of tree k (graph and rows), e.p its prediction, e.res its residuals, e.each[k] each tree's prediction *)
TreeOf(g, root) == [dec |-> I!DecOf([left |-> [i \in 1..Len(g) |-> g[i][2]], right |-> [i \in 1..Len(g) |-> g[i][3]], var |-> [i \in 1..Len(g) |-> g[i][5]], cut |-> [i \in 1..Len(g) |-> g[i][6]]], root, 1),
                    lv |-> I!LvOf([left |-> [i \in 1..Len(g) |-> g[i][2]], right |-> [i \in 1..Len(g) |-> g[i][3]], value |-> [i \in 1..Len(g) |-> g[i][7]]], root, 1)]
SeenTree(o) == TreeOf(o.g, CHOOSE i \in RootsIn(o.g) : TRUE)
Readable(o) == Cardinality(RootsIn(o.g)) = 1 /\ \A i \in 1..Len(o.g) : o.g[i][2] \in 0..Len(o.g) /\ o.g[i][3] \in 0..Len(o.g)
StateFails(e) ==
    IF \E k \in 1..Len(e.trees) : ~Readable(e.trees[k]) THEN {<<"C16.state", "a tree is no tree">>}
    ELSE LET f == [k \in 1..Len(e.trees) |-> SeenTree(e.trees[k])]
             all == I!ModelPrediction(f) IN
         UNION {StructFails(f[k], e.trees[k], "C16.", "C16.") \cup RowFails(f[k], e.trees[k], "C16.") : k \in 1..Len(f)}
         \cup (IF Has(e, "initial") /\ turn = Len(forest) THEN Clause("C16.structures", f = forest, <<"expected", forest, "got", f>>) ELSE {})
         \cup UNION {Clause("C16.treeprediction", VecNear(e.each[k], PredictAll(X, f[k]), 1), <<"tree", k, "expected", PredictAll(X, f[k]), "got", e.each[k]>>) : k \in 1..Len(f)}
         \cup Clause("C16.modelprediction", VecNear(e.p, all, 1 + Len(f)), <<"expected", all, "got", e.p>>)
         \cup Clause("C16.modelresiduals", VecNear(e.res, [r \in 1..Len(y) |-> y[r] - all[r]], 2 + Len(f)), <<"got", e.res>>)
         \cup (IF Has(e, "ys") THEN UNION {Clause("C16.targets", VecNear(e.ys[k], I!TargetOf(f, k), 4 + 2 * Len(f)), <<"tree", k, "expected", I!TargetOf(f, k), "sees", e.ys[k]>>) : k \in {k \in 1..Len(f) : e.ys[k] # <<0>>}} ELSE {})

TNext ==
    /\ MoreEvents
    /\ UNCHANGED <<tree, rows>>
    /\ LET e == Ev IN
        CASE e.op = "map" -> (UNCHANGED <<X, y, forest, turn, seen>> /\ Advance(MapFails(e)))
          [] e.op = "turn" -> (IF turn < Len(forest) THEN I!InitNext(e.a) /\ Advance(TurnFails(e))
                                                     ELSE UNCHANGED <<X, y, forest, turn, seen>> /\ Advance({<<"C16.toomany", "more fits than trees">>}))
          [] e.op = "count" -> (UNCHANGED <<X, y, forest, turn, seen>> /\ Advance(Clause("C16.everytree", turn = Len(forest), <<"initialised", turn, "of", Len(forest)>>)))
          [] e.op = "state" -> (UNCHANGED <<X, y, forest, turn, seen>> /\ Advance(StateFails(e)))
          [] e.op = "error" -> (UNCHANGED <<X, y, forest, turn, seen>> /\ Advance({<<"ANY.raise", e.what>>}))
TSpec == TInit /\ [][TNext]_vars
===============================================================================
