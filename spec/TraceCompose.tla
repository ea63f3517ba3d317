----------------------------- MODULE TraceCompose ------------------------------
(* Recorded histories of real pipelines.  Tr.x[d][r][j], 100 * column + something: cell j of  *)
(* row r of data set d; a chain's data are given by the same codes (c.x) and the rows its       *)
(* targets belong to (c.y).  Parameters are coded as integers, in the order of Tr.names;         *)
(* e.obs: parameters and fit (0: none; otherwise a number naming its answers) of every estimator. *)
EXTENDS BartCompose, TraceLib
VARIABLES est, pending
vars == <<cvars, est, pending, lvars>>
TInit == LInit /\ CInit(<< >>) /\ est = << >> /\ pending = 0
At(name) == LET S == {i \in 1..Len(Tr.names) : Tr.names[i] = name} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : TRUE
Pr(p, name) == p[At(name)]
Selecting == Tr.kind # "model"
Mod(name) == IF Selecting THEN "model__" \o name ELSE name
Sel(name) == "selector__model__" \o name
\* a selector that is given a number of trees of its own uses it
SelTrees(p) == IF Tr.kind = "null" /\ Pr(p, "selector__n_trees") # -1 THEN Pr(p, "selector__n_trees") ELSE Pr(p, Sel("n_trees"))
Loose(p) == IF Tr.kind = "null" /\ Pr(p, "selector__n_trees") # -1 THEN {At(Sel("n_trees"))} ELSE {}
SameP(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : i \in Loose(a) \/ a[i] = b[i]
(* ---- every estimator after every operation ---- *)
\* want[h]: [p, f], f = -1: whatever it is, but fitted
ObsFails(e, want) ==
    Clause("C22.handles", Len(e.obs) = Len(want), <<Len(e.obs), "estimators instead of", Len(want)>>)
    \cup (IF Len(e.obs) # Len(want) THEN {} ELSE UNION {
           Clause("C22.params", SameP(want[h].p, e.obs[h].p), <<"after", e.op, "estimator", h, Tr.names, "expected", want[h].p, "got", e.obs[h].p>>)
           \cup Clause("C22.state", IF want[h].f = -1 THEN e.obs[h].f # 0 ELSE e.obs[h].f = want[h].f, <<"after", e.op, "estimator", h, "answers expected", want[h].f, "got", e.obs[h].f>>)
           : h \in 1..Len(want)})
Told(e, want) == est' = [h \in 1..Len(want) |-> IF h <= Len(e.obs) THEN [p |-> want[h].p, f |-> IF want[h].f = -1 THEN e.obs[h].f ELSE want[h].f] ELSE want[h]]
Go(e, want, fails) == Told(e, want) /\ UNCHANGED <<cvars, pending>> /\ Advance(ObsFails(e, want) \cup fails)
(* ---- chains ---- *)
Col(code) == code \div 100
Cols(c) == [j \in 1..Len(c.x[1]) |-> Col(c.x[1][j])]
Known(c, d) == /\ Len(c.x) > 0 /\ Len(c.x[1]) > 0 /\ Len(c.x) = Len(c.y)
               /\ \A i \in 1..Len(c.y) : c.y[i] \in 1..Len(Tr.x[d])
               /\ \A i \in 1..Len(c.x) : \A j \in 1..Len(c.x[1]) : Col(c.x[1][j]) \in 1..Len(Tr.x[d][1])
Rows(c) == ToSetOf(c.y)
Whole(d) == 1..Len(Tr.x[d])
Own(c, d) == \A i \in 1..Len(c.x) : \A j \in 1..Len(c.x[1]) : c.x[i][j] = Tr.x[d][c.y[i]][Col(c.x[1][j])]
\* covariates of the rows in question, all columns, with their targets in any order
Covers(c, d, rows) == Len(c.x) = Cardinality(rows) /\ {c.x[i] : i \in 1..Len(c.x)} = {Tr.x[d][r] : r \in rows} /\ Rows(c) = rows
ChainFails(c, d, rows, trees, sweeps, what) ==
    IF ~Known(c, d) THEN {<<"C22.rows", ToString(<<what, "ran on data that are not the caller's", c.x, c.y>>)>>} ELSE
    Clause("C22.rows", Rows(c) = rows /\ NoRepeats(c.y), <<what, "expected rows", rows, "got", c.y>>)
    \cup Clause("C22.trees", c.trees = trees, <<what, "trees", c.trees, "instead of", trees>>)
    \cup Clause("C22.sweeps", c.sweeps = sweeps, <<what, "sweeps", c.sweeps, "instead of", sweeps>>)
FinFails(c, d, rows, p) == ChainFails(c, d, rows, Pr(p, Mod("n_trees")), Pr(p, Mod("n_burn")) + Pr(p, Mod("n_samples")), "model")
    \cup (IF Known(c, d) THEN Clause("C22.cells", Own(c, d), <<"covariates and targets of the model do not belong together", c.x, c.y>>) ELSE {})
SelFails(c, d, rows, p) == ChainFails(c, d, rows, SelTrees(p), Pr(p, Sel("n_burn")) + Pr(p, Sel("n_samples")), "selector")
    \cup (IF Known(c, d) THEN Clause("C22.selcells", Covers(c, d, rows), <<"selector", rows, c.x, c.y>>) ELSE {})
SelCount(p) == IF ~Selecting THEN 0 ELSE Pr(p, Sel("n_chains")) * (1 + IF Tr.kind = "null" THEN Pr(p, "selector__n_permutations") ELSE 0)
Plain(cs, d) == {i \in 1..Len(cs) : Known(cs[i], d) /\ Own(cs[i], d)}
Used(mask) == {v \in 1..Len(mask) : mask[v] = 1}
\* one fitted estimator: g.sel, g.fin its chains, g.mask, g.sh and g.thr (ranks of shares and thresholds)
FitFails(g, d, rows, p) ==
    Clause("C22.finchains", Len(g.fin) = Pr(p, Mod("n_chains")), <<"chains of the model", Len(g.fin), "instead of", Pr(p, Mod("n_chains"))>>)
    \cup UNION {FinFails(g.fin[i], d, rows, p) : i \in 1..Len(g.fin)}
    \cup (IF ~Selecting THEN {} ELSE
          Clause("C22.selchains", Len(g.sel) = SelCount(p), <<"chains of the selector", Len(g.sel), "instead of", SelCount(p)>>)
          \cup UNION {SelFails(g.sel[i], d, rows, p) : i \in 1..Len(g.sel)}
          \cup Clause("C22.selown", Cardinality(Plain(g.sel, d)) >= Pr(p, Sel("n_chains")), "the selector's own model did not see the caller's target")
          \cup Clause("C22.mask", \A v \in 1..Len(g.mask) : (g.mask[v] = 1) = (g.sh[v] > g.thr[v]), <<"mask", g.mask, "ranks of shares", g.sh, "and thresholds", g.thr>>))
    \cup UNION {Clause("C22.columns", Known(g.fin[i], d) => ToSetOf(Cols(g.fin[i])) = Used(g.mask) /\ NoRepeats(Cols(g.fin[i])), <<"columns of the model", IF Known(g.fin[i], d) THEN Cols(g.fin[i]) ELSE << >>, "mask", g.mask>>) : i \in 1..Len(g.fin)}
    \cup Clause("C22.through", Len(g.pred) = Len(g.via) /\ \A i \in 1..Len(g.pred) : Near(g.pred[i], g.via[i], 1), <<"prediction", g.pred, "of the model on the kept columns", g.via>>)
(* ---- scores: squared errors in units of 10^-4, predictions and targets of 10^-2 ---- *)
RECURSIVE SumSq(_, _, _)
SumSq(g, i, best) == IF i = 0 THEN 0 ELSE (LET e == g.ys[i] - g.tests[i] IN IF best THEN e * e ELSE AbsV(e) + 1) + SumSq(g, i - 1, best)
ScoreFails(g) == LET n == Len(g.tests) IN Clause("C22.score", Near(g.score * n, SumSq(g, n, TRUE), SumSq(g, n, FALSE) + n), <<"score", g.score, "targets", g.ys, "predictions", g.tests>>)
Rest(d, fold) == Whole(d) \ ToSetOf(fold)
CrossFails(e) == LET p == est[e.h].p IN
    Clause("C22.folds", Len(e.ests) = Len(e.folds), <<Len(e.ests), "fits for", Len(e.folds), "folds">>)
    \cup (IF Len(e.ests) # Len(e.folds) THEN {} ELSE UNION {FitFails(e.ests[i], e.d, Rest(e.d, e.folds[i]), p) \cup ScoreFails(e.ests[i]) : i \in 1..Len(e.folds)})
Better(e, a, b) == e.means[a] >= e.means[b] - 1
SearchFails(e) == LET p(v) == [est[e.h].p EXCEPT ![At(e.name)] = v]
                      nc(v) == Pr(p(v), Mod("n_chains"))
                      fits(v, rows) == {i \in 1..Len(e.fin) : Rows(e.fin[i]) = rows /\ e.fin[i].trees = Pr(p(v), Mod("n_trees"))
                                                               /\ e.fin[i].sweeps = Pr(p(v), Mod("n_burn")) + Pr(p(v), Mod("n_samples"))}
                      like(v) == {i \in 1..Len(e.values) : Pr(p(e.values[i]), Mod("n_trees")) = Pr(p(v), Mod("n_trees")) /\ Pr(p(e.values[i]), Mod("n_samples")) = Pr(p(v), Mod("n_samples"))
                                                            /\ Pr(p(e.values[i]), Mod("n_burn")) = Pr(p(v), Mod("n_burn"))}
                      RECURSIVE Sum(_, _)
                      Sum(S, f) == IF S = {} THEN 0 ELSE LET i == CHOOSE i \in S : TRUE IN f + nc(e.values[i]) + Sum(S \ {i}, f) IN
    Clause("C22.best", e.best \in 1..Len(e.values) /\ \A b \in 1..Len(e.values) : Better(e, e.best, b), <<"best", e.best, "scores", e.means>>)
    \cup UNION {UNION {Clause("C22.searched", Cardinality(fits(e.values[i], Rest(e.d, e.folds[f]))) = Sum(like(e.values[i]), 0), <<e.name, e.values[i], "fold", e.folds[f], "chains", Cardinality(fits(e.values[i], Rest(e.d, e.folds[f])))>>)
                 : f \in 1..Len(e.folds)} : i \in 1..Len(e.values)}
    \cup FitFails(e.fit, e.d, Whole(e.d), p(e.values[e.best]))
With(h, r) == [est EXCEPT ![h] = r]
TNext ==
    /\ MoreEvents
    /\ LET e == Ev IN
        CASE e.op = "new" -> Go(e, <<[p |-> Tr.p, f |-> 0]>>, {})
          [] e.op = "clone" -> Go(e, Append(est, [p |-> est[e.h].p, f |-> 0]), {})
          [] e.op = "copy" -> Go(e, Append(est, est[e.h]), {})
          \* the threshold of the simple selector, like that of scikit-learn's own, counts at once
          [] e.op = "set" -> Go(e, With(e.h, [est[e.h] EXCEPT !.p[At(e.name)] = e.v,
                                                              !.f = IF Tr.kind = "split" /\ e.name = "selector__percentile" /\ @ # 0 THEN -1 ELSE @]), {})
          [] e.op = "fit" -> Go(e, With(e.h, [est[e.h] EXCEPT !.f = -1]), FitFails(e.fit, e.d, Whole(e.d), est[e.h].p))
          [] e.op = "cross" -> Go(e, est, CrossFails(e))
          [] e.op = "search" -> Go(e, Append(est, [p |-> [est[e.h].p EXCEPT ![At(e.name)] = e.values[e.best]], f |-> -1]), SearchFails(e))
          [] e.op = "error" -> (UNCHANGED <<cvars, est, pending>> /\ Advance({<<"ANY.raise", e.what>>}))
TSpec == TInit /\ [][TNext]_vars
===============================================================================
