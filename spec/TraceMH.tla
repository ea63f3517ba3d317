-------------------------------- MODULE TraceMH -------------------------------
(* Log ratios, acceptance decisions and one-step transition frequencies of the      *)
(* real default tree sampler against BartMH.                                         *)
EXTENDS BartMH, TraceLib
vars == <<tvars, lvars>>
TInit == LInit /\ TreeInit(Tr.X, Tr.y)
P == Tr.p
Mv(m) == <<m[1], m[2], m[3], m[4]>>
RatioTol(r) == 400 + AbsV(r) \div 10000

RatioFails(e) ==
    LET m == Mv(e.m) IN
    IF m \notin Moves(tree, rows) THEN {<<"C07.illegal", ToString(m)>>} ELSE
    LET r == LnRatio(P, tree, rows, y, m) IN
    Clause("C07.ratio", Near(e.r, r, RatioTol(r)), <<m, "expected", r, "got", e.r>>)
    \cup (IF Has(e, "back") THEN Clause("C07.reverse", Near(e.r, 0 - e.back, 20 + AbsV(e.r) \div 100000), <<m, e.r, e.back>>) ELSE {})

\* free reversal check for parameters outside the fixed point model
BackFails(e) == Clause("C07.reverse", Near(e.r, 0 - e.back, 20 + AbsV(e.r) \div 100000), <<e.m, e.r, e.back>>)

(* e.kind: "num" with e.r, e.lnu in 10^-6, or "applies"/"stays" for infinite and undefined ones *)
AcceptFails(e) ==
    LET want == IF e.kind = "applies" THEN 1 ELSE IF e.kind = "stays" THEN 0 ELSE IF e.lnu < e.r THEN 1 ELSE 0 IN
    Clause("C07.accept", e.applied = want, <<"log u", e.lnu, "log ratio", e.r, e.kind, "applied", e.applied>>)
    \cup Clause("C07.returned", e.returned = e.applied, <<"returned", e.returned, "applied", e.applied>>)
    \cup (IF e.applied = 0 THEN Clause("C07.untouched", e.before = e.after, <<e.before, e.after>>) ELSE {})
\* the whole sampler with its own ratio, a fixed proposal and a fixed uniform draw
WholeFails(e) ==
    LET m == Mv(e.m) IN
    IF m \notin Moves(tree, rows) THEN {<<"C07.illegal", ToString(m)>>} ELSE
    LET r == LnRatio(P, tree, rows, y, m) IN
    IF Near(r, e.lnu, 2 * RatioTol(r)) THEN {} ELSE
    Clause("C07.decision", (e.applied = 1) = (e.lnu < r), <<m, "log u", e.lnu, "log ratio", r, "applied", e.applied>>)

Fits(k, n, pr) ==     \* pr in 10^-6
    LET x == ((n \div 1000) * pr) \div 1000 d == AbsV(k - x) IN d * d <= 45 * x + 500
KernelFails(e) ==
    LET M == Moves(tree, rows)
        cs == e.counts
        cnt(m) == IF \E k \in 1..Len(cs) : Mv(cs[k]) = m THEN cs[CHOOSE k \in 1..Len(cs) : Mv(cs[k]) = m][5] ELSE 0
        K == [m \in M |-> StepProb(P, tree, rows, y, m)]
    IN  UNION {Clause("C07.legal", Mv(cs[k]) \in M, cs[k]) : k \in 1..Len(cs)}
        \cup UNION {Clause("C07.kernel", Fits(cnt(m), e.n, K[m]), <<m, "expected", K[m], "of", e.n, "got", cnt(m)>>) : m \in M}
        \cup Clause("C07.stay", Fits(e.stay, e.n, U - SumOver(K, M)), <<"expected", U - SumOver(K, M), "of", e.n, "got", e.stay>>)

(* share of steps spent in each tree over a long run: e.visits = << <<moves that build the tree>>, count >> *)
RECURSIVE Build(_, _)
Build(st, ms) == IF ms = << >> THEN st ELSE Build(<<AfterTree(st[1], Head(ms)), AfterRows(st[1], st[2], Head(ms))>>, Tail(ms))
LongFails(e) ==
    LET st == [k \in 1..Len(e.visits) |-> Build(<<StumpTree(0), (1 :> RowsOf(X))>>, e.visits[k][1])]
        lp == [k \in 1..Len(e.visits) |-> LnPost(P, st[k][1], st[k][2], y)]
        top == MaxOf({lp[k] : k \in DOMAIN lp})
        w == [k \in DOMAIN lp |-> ExpNeg(lp[k] - top) \div 100]
        tot == SumOver(w, DOMAIN w)
        share(k) == (w[k] * 10000) \div tot
        got(k) == (e.visits[k][2] * 10000) \div e.n
    IN  UNION {Clause("C07.longrun", Near(got(k), share(k), e.tol), <<e.visits[k], "expected share (1/10000)", share(k), "got", got(k)>>) : k \in DOMAIN lp}

TNext ==
    /\ MoreEvents
    /\ LET e == Ev IN
        CASE e.op = "grow" -> (Grow(e.m[2], e.m[3], e.m[4]) /\ Advance({}))
          [] e.op = "prune" -> (Prune(e.m[2]) /\ Advance({}))
          [] e.op = "update" -> (UpdateY(e.y) /\ Advance({}))
          [] e.op = "ratio" -> (UNCHANGED tvars /\ Advance(RatioFails(e)))
          [] e.op = "back" -> (UNCHANGED tvars /\ Advance(BackFails(e)))
          [] e.op = "accept" -> (UNCHANGED tvars /\ Advance(AcceptFails(e)))
          [] e.op = "whole" -> (UNCHANGED tvars /\ Advance(WholeFails(e)))
          [] e.op = "kernel" -> (UNCHANGED tvars /\ Advance(KernelFails(e)))
          [] e.op = "long" -> (UNCHANGED tvars /\ Advance(LongFails(e)))
          [] e.op = "error" -> (UNCHANGED tvars /\ Advance({<<"ANY.raise", e.what>>}))
TSpec == TInit /\ [][TNext]_vars
===============================================================================
