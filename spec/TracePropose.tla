----------------------------- MODULE TracePropose -----------------------------
(* Counts of the mutations a real proposer returned, against the distribution.     *)
EXTENDS BartPropose, TraceLib
vars == <<tvars, lvars>>
TInit == LInit /\ TreeInit(Tr.X, Tr.y)

(* N draws of which k hit an event of probability w: k within 6.3 standard deviations (plus 20) of N*w *)
Fits(k, n, w) == LET e == (n * w[1]) \div w[2] d == AbsV(k - e) IN d * d <= 40 * (IF e < n THEN e ELSE n) + 400
RECURSIVE CountIn(_, _)
CountIn(cs, k) == IF k = 0 THEN 0 ELSE cs[k][5] + CountIn(cs, k - 1)
MoveOf(c) == <<c[1], c[2], c[3], c[4]>>
FreqFails(e) ==
    LET M == Moves(tree, rows)
        cs == e.counts
        cnt(m) == IF \E k \in 1..Len(cs) : MoveOf(cs[k]) = m THEN cs[CHOOSE k \in 1..Len(cs) : MoveOf(cs[k]) = m][5] ELSE 0
        W == [m \in M |-> Weight(tree, rows, m, e.pg, e.pp)]
        sub(S) == IF S = {} THEN <<0, 1>> ELSE RSum(W, S)
        C == [m \in M |-> cnt(m)]
        tot(S) == SumSet(C, S)
        marg(name, S) == IF S = {} THEN {} ELSE Clause(name, Fits(tot(S), e.n, sub(S)), <<"expected", sub(S), "of", e.n, "got", tot(S), "e.g.", CHOOSE m \in S : TRUE>>)
    IN  UNION {Clause("C03.legal", MoveOf(cs[k]) \in M, cs[k]) : k \in 1..Len(cs)}
        \cup Clause("C03.none", (M = {}) <=> (e.none = e.n), <<"no mutation proposed", e.none, "of", e.n>>)
        \cup Clause("C03.some", M # {} => e.none = 0, e.none)
        \cup (IF M = {} THEN {} ELSE
              UNION {Clause("C03.frequency", Fits(cnt(m), e.n, W[m]), <<m, "expected", W[m], "of", e.n, "got", cnt(m)>>) : m \in M}
              \cup marg("C03.kind", GrowMoves(tree, rows))
              \cup marg("C03.kind", PruneMoves(tree))
              \cup UNION {marg("C03.leaf", {m \in M : m[1] = "grow" /\ m[2] = i}) : i \in DOMAIN tree.lv}
              \cup UNION {marg("C03.variable", {m \in M : m[1] = "grow" /\ m[3] = v}) : v \in ColsOf(X)})
TNext ==
    /\ MoreEvents
    /\ LET e == Ev IN
        CASE e.op = "grow" -> (Grow(e.m[2], e.m[3], e.m[4]) /\ Advance({}))
          [] e.op = "freq" -> (UNCHANGED tvars /\ Advance(FreqFails(e)))
          [] e.op = "same" -> (UNCHANGED tvars /\ Advance(Clause("C03.harmless", e.a = e.b, <<"before", e.a, "after", e.b>>)))
          [] e.op = "error" -> (UNCHANGED tvars /\ Advance({<<"ANY.raise", e.what>>}))
TSpec == TInit /\ [][TNext]_vars
===============================================================================
