---------------------------- MODULE TraceImportance ----------------------------
(* Recorded importance runs.  Tr.x[r][j]: value (as a small integer) of row r, column j; *)
(* Tr.y[r]: target in 10^-2 base units; Tr.id: the column that identifies rows.            *)
(* A "model" event is one model that was scored: e.chains, per chain the rows it was       *)
(* trained on, in order, with the covariates and targets it really saw; e.rows and e.test   *)
(* the rows and covariates it predicted, e.pred what it said.                                *)
EXTENDS BartImportance, TraceLib
VARIABLES held, cols, sums, run
vars == <<ivars, held, cols, sums, run, lvars>>
TInit == LInit /\ ImpInit /\ held = << >> /\ cols = << >> /\ sums = << >> /\ run = [kind |-> "", k |-> 0, np |-> 0, var |-> 0]
N == Len(Tr.x)
\* index in s of row r (0 if absent)
At(s, r) == IF r \in ToSetOf(s) THEN CHOOSE i \in 1..Len(s) : s[i] = r ELSE 0
AllRows(s) == \A i \in 1..Len(s) : s[i] \in 1..N
\* the examined column over all rows, as the model and its scoring saw it
ColOf(e) == [r \in 1..N |-> LET i == At(e.chains[1].rows, r) IN IF i > 0 THEN e.chains[1].x[i][run.var] ELSE e.test[At(e.rows, r)][run.var]]
Others(x, rows) == \A i \in 1..Len(rows) : \A j \in 1..Len(Tr.x[1]) : j = run.var \/ x[i][j] = Tr.x[rows[i]][j]
Truth == [r \in 1..N |-> Tr.x[r][run.var]]
RECURSIVE SumSq(_, _, _)
SumSq(e, i, best) == IF i = 0 THEN 0 ELSE (LET d == Tr.y[e.rows[i]] - e.pred[i] IN IF best THEN d * d ELSE 2 * AbsV(d) + 1) + SumSq(e, i - 1, best)
Sound(e) == Len(e.chains) > 0 /\ AllRows(e.rows) /\ \A c \in 1..Len(e.chains) : AllRows(e.chains[c].rows)
Whole(e) == ToSetOf(e.chains[1].rows) \cup ToSetOf(e.rows) = 1..N
ModelFails(e) ==
    IF ~Sound(e) THEN {<<"C20.rows", ToString(<<"a model was fitted or scored on rows that are not in the data, or its samples come from no chain", e.rows, e.chains>>)>>} ELSE
    Clause("C20.chains", \A c \in 2..Len(e.chains) : e.chains[c] = e.chains[1], "chains of one model saw different data")
    \cup Clause("C20.once", NoRepeats(e.chains[1].rows) /\ NoRepeats(e.rows), <<"trained on", e.chains[1].rows, "scored on", e.rows>>)
    \cup Clause("C20.heldout", ToSetOf(e.rows) \cap ToSetOf(e.chains[1].rows) = {}, <<"trained on", e.chains[1].rows, "scored on", e.rows>>)
    \cup Clause("C20.otherrows", Whole(e), <<"trained on", e.chains[1].rows, "scored on", e.rows>>)
    \cup Clause("C20.targets", \A i \in 1..Len(e.chains[1].rows) : Near(e.chains[1].y[i], Tr.y[e.chains[1].rows[i]], 2), <<"rows", e.chains[1].rows, "targets", e.chains[1].y>>)
    \cup Clause("C20.othercolumns", Others(e.chains[1].x, e.chains[1].rows) /\ Others(e.test, e.rows), <<"rows", e.chains[1].rows, e.chains[1].x, e.rows, e.test>>)
    \cup (IF ~Whole(e) THEN {} ELSE
          IF e.kind = "original" THEN Clause("C20.unshuffled", ColOf(e) = Truth, <<"column", ColOf(e), "of the data", Truth>>)
          ELSE Clause("C20.ownvalues", SameBag(ColOf(e), Truth), <<"column", ColOf(e), "of the data", Truth>>))
Kind(k) == {i \in 1..Len(cols) : cols[i].kind = k}
Times(k) == IF k = "original" THEN 1 ELSE run.np
SubHeld(k) == [r \in 1..N |-> Cardinality({i \in Kind(k) : r \in held[i]})]
\* scores and sums are matched in any order: both sorted
Below(s, i) == Cardinality({j \in 1..Len(s) : s[j] < s[i] \/ (s[j] = s[i] /\ j <= i)})
Sorted(s) == [n \in 1..Len(s) |-> s[CHOOSE i \in 1..Len(s) : Below(s, i) = n]]
SeqOf(S) == [n \in 1..Cardinality(S) |-> CHOOSE i \in S : Cardinality({j \in S : j <= i}) = n]
ScoresOk(k, got) == LET ix == SeqOf(Kind(k))
                        want == Sorted([i \in 1..Len(ix) |-> sums[ix[i]][1]])
                        slack == Sorted([i \in 1..Len(ix) |-> sums[ix[i]][2]])
                        g == Sorted(got) IN
                    Len(got) = Len(want) => \A i \in 1..Len(g) : Near(g[i] * g[i], want[i], slack[Len(slack)] + 2 * g[i] + 1)
RetFails(e) ==
    UNION {LET k == e.kinds[q] IN
        Clause("C20.count", Len(e.scores[q]) = run.k * Times(k), <<k, Len(e.scores[q]), "scores for", run.k, "folds and", run.np, "permutations">>)
        \cup Clause("C20.models", Cardinality(Kind(k)) = run.k * Times(k), <<k, Cardinality(Kind(k)), "models scored for", run.k, "folds and", run.np, "permutations">>)
        \cup Clause("C20.everyrow", \A r \in 1..N : SubHeld(k)[r] = Times(k), <<k, "how often each row was held out", SubHeld(k)>>)
        \cup Clause("C20.score", ScoresOk(k, e.scores[q]), <<k, "scores", e.scores[q], "sums of squares", sums>>)
        \cup (IF k = "null" /\ e.distinct = 1
              THEN Clause("C20.shuffled", Cardinality({cols[i].col : i \in Kind(k)}) >= Times(k) /\ \A i \in Kind(k) : cols[i].col # Truth,
                          <<"columns", cols>>)
              ELSE {}) : q \in 1..Len(e.kinds)}
    \cup Clause("C20.data", e.data = 1, "the caller's data were changed")
    \cup Clause("C20.model", e.model = 1, "the caller's model was changed")
Hit(e, F) == \E i \in 1..Len(e.rows) : e.rows[i] \in F
TNext ==
    /\ MoreEvents
    /\ LET e == Ev IN
        CASE e.op = "begin" -> (/\ run' = [kind |-> e.kind, k |-> e.k, np |-> e.np, var |-> e.var]
                                /\ held' = << >> /\ cols' = << >> /\ sums' = << >>
                                /\ UNCHANGED ivars /\ Advance({}))
          [] e.op = "model" -> (/\ held' = Append(held, ToSetOf(e.rows))
                                /\ cols' = Append(cols, [kind |-> e.kind, col |-> IF Sound(e) /\ Whole(e) THEN ColOf(e) ELSE << >>])
                                /\ sums' = Append(sums, IF AllRows(e.rows) THEN <<SumSq(e, Len(e.rows), TRUE), SumSq(e, Len(e.rows), FALSE)>> ELSE <<0, 0>>)
                                /\ UNCHANGED <<run, ivars>> /\ Advance(ModelFails(e)))
          [] e.op = "ret" -> (UNCHANGED <<run, held, cols, sums, ivars>> /\ Advance(RetFails(e)))
          [] e.op = "error" -> (UNCHANGED <<run, held, cols, sums, ivars>> /\ Advance({<<"ANY.raise", e.what>>}))
TSpec == TInit /\ [][TNext]_vars
===============================================================================
