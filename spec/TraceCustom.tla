----------------------------- MODULE TraceCustom ------------------------------
(* Chains run with the caller's own schedule and logger; proposers with the caller's own *)
(* table of operations; tree samplers with the caller's own proposer and ratio.            *)
EXTENDS BartCustom, FixMath, TraceLib
VARIABLES st, outs        \* outs: what the chains closed so far stored
vars == <<st, outs, lvars>>
C == [Tr.cfg EXCEPT !.wantp = @ = 1, !.wanta = @ = 1]
TInit == LInit /\ st = Start(C) /\ outs = << >>
KindMsg(e) == IF e.op \in {"log", "pred", "model"} THEN <<e.op, e.k, e.m>> ELSE IF e.op = "offer" THEN <<e.op, e.k>> ELSE <<e.op>>
Chain == {"new", "begin", "offer", "run", "log", "over", "pred", "model", "out"}
What(e) == CASE e.op = "new" -> "C23.logger" [] e.op \in {"begin", "offer", "run", "over"} -> "C23.steps" [] e.op = "log" -> "C23.logged" [] OTHER -> "C23.recorded"

(* stored shares e.accs[r] = {<<kind, share>>} in 10^-6 *)
AccOk(want, got) ==
    /\ {want[i][1] : i \in 1..Len(want)} = {got[j][1] : j \in 1..Len(got)} /\ Len(want) = Len(got)
    /\ \A i \in 1..Len(want) : \A j \in 1..Len(got) : want[i][1] = got[j][1] => Near(got[j][2], FixDiv(want[i][2], want[i][3]), 2)
RECURSIVE Seqd(_)
Seqd(S) == IF S = {} THEN << >> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o Seqd(S \ {x})
OutFails(s, e) ==
    Clause("C23.models", e.models = s.models, <<"logged", s.models, "stored", e.models>>)
    \cup Clause("C23.predictions", e.preds = s.preds, <<"logged", s.preds, "stored", e.preds>>)
    \cup Clause("C23.shares", Len(e.accs) = Len(s.accs) /\ \A r \in 1..Len(s.accs) : AccOk(Seqd(s.accs[r]), e.accs[r]), <<"logged", s.accs, "stored", e.accs>>)
Stepped(e) ==
    IF ~Can(st, KindMsg(e)) THEN Advance({<<What(e), ToString(<<e, "in state", [st EXCEPT !.tally = Len(@)]>>)>>}) /\ UNCHANGED <<st, outs>>
    ELSE LET n == Step(st, KindMsg(e)) IN
         /\ st' = IF e.op = "out" THEN Start(C) ELSE n
         /\ outs' = IF e.op = "out" THEN Append(outs, [models |-> n.models, preds |-> n.preds, accs |-> n.accs]) ELSE outs
         /\ Advance((IF Has(e, "same") THEN Clause(What(e), e.same = 1, <<e.op, "got something else than what it is about", e>>) ELSE {})
                    \cup (IF e.op = "out" /\ Has(e, "models") THEN OutFails(n, e) ELSE {}))
(* all chains of an estimator together *)
RECURSIVE Flat(_, _)
Flat(f(_), k) == IF k = 0 THEN << >> ELSE Flat(f, k - 1) \o f(outs[k])
M1(o) == o.models
P1(o) == o.preds
A1(o) == o.accs
AllFails(e) == Clause("C23.chains", Len(outs) = e.chains, <<Len(outs), "chains of", e.chains>>)
               \cup OutFails([models |-> Flat(M1, Len(outs)), preds |-> Flat(P1, Len(outs)), accs |-> Flat(A1, Len(outs))], e)
(* a step that fails ends the chain with its own exception *)
BrokenFails(e) == Clause("C23.failure", e.raised = 1 /\ e.after = 0, <<"raised to the caller", e.raised, "events after the failure", e.after>>)

(* a proposer with a table of operations: calls <<operation, outcome>>, outcome 0: cannot be applied, 1: returns, 2: fails otherwise *)
ProposeFails(e) ==
    LET n == Len(e.calls) IN
    Clause("C23.operation", n > 0 /\ (\A i \in 1..(n - 1) : e.calls[i][2] = 0) /\ e.calls[n][2] # 0
                            /\ (IF e.calls[n][2] = 1 THEN e.ret = 1 ELSE e.ret = 2), <<"operations called", e.calls, "result", e.ret>>)
    \cup Clause("C23.tree", e.tree = 1, "an operation was given something else than the tree")
\* counts of N draws against weights w / total: 6 standard deviations
Total(w) == LET S[i \in 0..Len(w)] == IF i = 0 THEN 0 ELSE S[i - 1] + w[i] IN S[Len(w)]
FreqFails(e) == LET d == Total(e.w) IN
    UNION {LET x == e.c[i] * d - e.n * e.w[i] IN
           Clause("C23.frequency", IF e.w[i] = 0 THEN e.c[i] = 0 ELSE AbsV(x) < 46000 /\ x * x <= 40 * e.n * e.w[i] * (d - e.w[i]) + d * d,
                  <<"operation", i, "weight", e.w[i], "of", d, "drawn", e.c[i], "times of", e.n>>) : i \in 1..Len(e.w)}

(* a tree sampler with its own proposer and ratio; u = 2^-k; parts of the log ratio in 1/8, inf: -1, 0 or 1 *)
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = << >> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
MHFails(e) ==
    LET sum == SumSeq([i \in 1..Len(e.parts) |-> SumSeq(e.parts[i])]) * 125000
        take == Len(e.parts) > 0 /\ (e.inf = 1 \/ (e.inf = 0 /\ sum > 0 - e.k * LnTab[2]))
    IN  Clause("C23.accept", (e.ret = 1) = take /\ e.ret # 2, <<"parts", e.parts, "inf", e.inf, "u = 2^-", e.k, "returned", e.ret>>)
        \cup Clause("C23.applied", e.applied = IF take THEN Len(e.parts) ELSE 0, <<"applied", e.applied, "of", Len(e.parts), "accepted", take>>)
        \cup Clause("C23.given", e.given = 1, "the proposer or the ratio saw another tree, model or proposal")

TNext ==
    /\ MoreEvents
    /\ LET e == Ev IN
        IF e.op \in Chain THEN Stepped(e) ELSE
        /\ UNCHANGED <<st, outs>>
        /\ CASE e.op = "all" -> Advance(AllFails(e))
             [] e.op = "broken" -> Advance(BrokenFails(e))
             [] e.op = "propose" -> Advance(ProposeFails(e))
             [] e.op = "freq" -> Advance(FreqFails(e))
             [] e.op = "mh" -> Advance(MHFails(e))
             [] e.op = "error" -> Advance({<<"ANY.raise", e.what>>})
TSpec == TInit /\ [][TNext]_vars
===============================================================================
