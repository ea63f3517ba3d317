------------------------------- MODULE TraceTotal -------------------------------
(* Recorded fits and predictions on any finite data: what came back, counted.            *)
(* e.bad counts the numbers that are not finite.                                           *)
EXTENDS Integers, Sequences, TraceLib
VARIABLES fitted      \* << >> or the record of the last fit: n rows, p columns, settings
vars == <<fitted, lvars>>
TInit == LInit /\ fitted = << >>
SamplesPerChain(samp, tn, td) == (tn * samp + td - 1) \div td
Samples(e) == e.chains * SamplesPerChain(e.samp, e.tn, e.td)
FitFails(e) ==
    Clause("C17.samples", e.models = Samples(e) \/ (e.tn # e.td /\ e.models > 0), <<"stored samples", e.models, "expected", Samples(e)>>)
    \cup Clause("C17.stored", e.wantp = 0 \/ e.preds = <<e.models, e.n>>, <<"stored predictions", e.preds, "rows", e.n>>)
    \cup Clause("C17.trees", e.trees = e.nt, <<"trees in a sample", e.trees, "expected", e.nt>>)
    \cup Clause("C17.finite", e.bad = 0, <<"numbers in the samples that are not finite", e.bad>>)
AskFails(e) ==
    Clause("C17.fitted", fitted # << >>, "nothing was fitted")
    \cup Clause("C17.length", e.len = e.rows /\ e.dim = 1, <<e.kind, "expected", e.rows, "numbers, got", e.len, "dimensions", e.dim>>)
    \cup Clause("C17.finite", e.bad = 0, <<e.kind, "numbers that are not finite", e.bad>>)
TNext ==
    /\ MoreEvents
    /\ LET e == Ev IN
        CASE e.op = "fit" -> (fitted' = [n |-> e.n] /\ Advance(FitFails(e)))
          [] e.op = "ask" -> (UNCHANGED fitted /\ Advance(AskFails(e)))
          [] e.op = "error" -> (UNCHANGED fitted /\ Advance({<<"ANY.raise", e.what>>}))
TSpec == TInit /\ [][TNext]_vars
===============================================================================
