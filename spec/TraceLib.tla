------------------------------- MODULE TraceLib -------------------------------
(* Shared by all trace specifications.  A file holds many recorded traces; every *)
(* trace is one initial state and is consumed event by event.  Verdicts are       *)
(* total: each event is judged by named clauses, a clause that fails is printed   *)
(* as @V with trace, event, clause and detail, and the trace goes on from the      *)
(* specification's own state.  A finished trace prints @D.                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES tid, l
lvars == <<tid, l>>

LInit == tid \in 1..Len(Traces) /\ l = 1
Tr == Traces[tid]
MoreEvents == l <= Len(Tr.ev)
Ev == Tr.ev[l]
Advance(fails) ==
    /\ \A f \in fails : PrintT("@V" \o ToJson([t |-> tid, l |-> l, c |-> f[1], x |-> f[2]]))
    /\ (l = Len(Tr.ev)) => PrintT("@D" \o ToString(tid))
    /\ l' = l + 1
    /\ UNCHANGED tid

Has(r, f) == f \in DOMAIN r
Clause(name, cond, info) == IF cond THEN {} ELSE {<<name, ToString(info)>>}
AbsV(x) == IF x < 0 THEN 0 - x ELSE x
Near(a, b, tol) == AbsV(a - b) <= tol
ToSetOf(s) == {s[i] : i \in 1..Len(s)}
NoRepeats(s) == Cardinality(ToSetOf(s)) = Len(s)
===============================================================================
