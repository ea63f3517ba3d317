----------------------------- MODULE TraceFeatures ----------------------------
(* Recorded shares, thresholds and selections.  Shares and thresholds are in 10^-6;    *)
(* where a share is compared with a threshold both also come as ranks (r..), which      *)
(* keep exactly their order.                                                            *)
EXTENDS BartFeatures, TraceLib
vars == <<fvars, lvars>>
TInit == LInit /\ FeatInit
M == 1000000
Six(f) == (f[1] * M) \div f[2]
VecNear(got, want, tol) == Len(got) = Len(want) /\ \A i \in 1..Len(want) : Near(got[i], want[i], tol)

RECURSIVE SumAll(_)
SumAll(s) == IF s = << >> THEN 0 ELSE Head(s) + SumAll(Tail(s))
\* e.cols: requested variables (0: all that are used), e.keys/e.got: what was answered
ShareFails(fo, e) ==
    LET used == {v \in 1..e.p : Splits(fo, v) > 0}
        want == IF e.cols = <<0>> THEN used ELSE ToSetOf(e.cols)
    IN  Clause("C14.columns", ToSetOf(e.keys) = want /\ NoRepeats(e.keys), <<"expected", want, "got", e.keys>>)
        \cup UNION {Clause("C14.share", Near(e.got[k], Six(Share(fo, e.keys[k])), 2), <<"variable", e.keys[k], "share", Share(fo, e.keys[k]), "got", e.got[k]>>) : k \in 1..Len(e.keys)}
        \cup Clause("C14.sum", (want # used /\ ~(used \subseteq want)) \/ AllSplits(fo) = 0 \/ Near(SumAll(e.got), M, 2 * Len(e.got)), e.got)

\* e.nulls: forests of the null runs, e.dist[v]: reported null shares per run, e.ys: 1 where the run's target is a permutation of the caller's
NullFails(e) ==
    UNION {Clause("C14.nullshares", VecNear(e.dist[v], [i \in 1..Len(e.nulls) |-> Six(Share(e.nulls[i], v))], 2),
                  <<"variable", v, "expected", [i \in 1..Len(e.nulls) |-> Share(e.nulls[i], v)], "got", e.dist[v]>>) : v \in 1..Len(e.dist)}
    \cup Clause("C14.nullwidth", Len(e.dist) = e.p, Len(e.dist))
    \cup Clause("C14.nullruns", Len(e.nulls) = e.want, <<"null runs", Len(e.nulls), "asked for", e.want>>)
    \cup Clause("C14.nulltarget", \A i \in 1..Len(e.ys) : e.ys[i] = 1, <<"runs whose target is no permutation of the caller's target", e.ys>>)
    \cup Clause("C14.nullcovariates", \A i \in 1..Len(e.xs) : e.xs[i] = 1, e.xs)

\* thresholds of shares given in 10^-6 (e.dist[v][run]), quantile e.q = <<num, den>>
PosOf(n, q) == <<(q[1] * (n - 1)) \div q[2], (q[1] * (n - 1)) % q[2]>>
RECURSIVE SortInts(_)
SortInts(s) == IF s = << >> THEN << >>
               ELSE LET i == CHOOSE i \in 1..Len(s) : \A j \in 1..Len(s) : s[i] <= s[j] IN
                    <<s[i]>> \o SortInts([j \in 1..(Len(s) - 1) |-> IF j < i THEN s[j] ELSE s[j + 1]])
IntQuantile(s, q) == LET o == SortInts(s) p == PosOf(Len(s), q) IN
                     IF p[1] = Len(s) - 1 THEN o[Len(s)] ELSE o[p[1] + 1] + ((o[p[1] + 2] - o[p[1] + 1]) * p[2]) \div q[2]
MaxInt(S) == CHOOSE m \in S : \A x \in S : x <= m
ThresholdsOf(e) ==
    IF e.method = "local" THEN [v \in 1..Len(e.dist) |-> IntQuantile(e.dist[v], e.q)]
    ELSE LET g == IntQuantile([i \in 1..Len(e.dist[1]) |-> MaxInt({e.dist[v][i] : v \in 1..Len(e.dist)})], e.q) IN [v \in 1..Len(e.dist) |-> g]
ThrFails(e) == Clause("C14.threshold", VecNear(e.thr, ThresholdsOf(e), 4), <<e.method, e.q, e.dist, "expected", ThresholdsOf(e), "got", e.thr>>)

\* e.rsh, e.rthr ranks of shares and thresholds per variable; e.mask; e.kept list of variables; e.passed, e.failed
KeepFails(e) ==
    LET want == {v \in 1..Len(e.rsh) : e.rsh[v] > e.rthr[v]} IN
    Clause("C14.mask", Len(e.mask) = e.p /\ {v \in 1..Len(e.mask) : e.mask[v] = 1} = want, <<"expected", want, "got", e.mask, "width", e.p>>)
    \cup (IF Has(e, "kept") THEN Clause("C14.kept", ToSetOf(e.kept) = want /\ NoRepeats(e.kept), <<"expected", want, "got", e.kept>>) ELSE {})
    \cup (IF Has(e, "passed") THEN Clause("C14.partition", ToSetOf(e.passed) = want /\ ToSetOf(e.failed) = (1..Len(e.rsh)) \ want, <<e.passed, e.failed>>) ELSE {})
    \cup (IF Has(e, "tr") THEN Clause("C14.transform", e.tr = SortInts([k \in 1..Cardinality(want) |-> CHOOSE v \in want : Cardinality({u \in want : u < v}) = k - 1]), <<"expected columns", want, "got", e.tr>>) ELSE {})
    \* plot of shares against thresholds
    \cup (IF Has(e, "bars") THEN Clause("C19.thresholdbars", e.bars = e.wantbars /\ ToSetOf(e.green) = want /\ ToSetOf(e.red) = (1..Len(e.rsh)) \ want, e) ELSE {})

TNext ==
    /\ MoreEvents
    /\ LET e == Ev IN
        CASE e.op = "fit" -> (FitForest(e.forest) /\ Advance({}))
          [] e.op = "shares" -> (UNCHANGED fvars /\ Advance(ShareFails(forest, e)))
          [] e.op = "null" -> (nulls' = e.nulls /\ UNCHANGED <<forest, chosen>> /\ Advance(NullFails(e)))
          [] e.op = "thr" -> (UNCHANGED fvars /\ Advance(ThrFails(e)))
          [] e.op = "keep" -> (UNCHANGED fvars /\ Advance(KeepFails(e)))
          [] e.op = "flag" -> (UNCHANGED fvars /\ Advance(Clause(e.name, e.ok = 1, e.info)))
          [] e.op = "error" -> (UNCHANGED fvars /\ Advance({<<"ANY.raise", e.what>>}))
TSpec == TInit /\ [][TNext]_vars
===============================================================================
