------------------------------ MODULE TraceSnap -------------------------------
(* Recorded histories of sampling, storing, editing and re-reading whole models.      *)
(* A state is the canonical form the driver reads off the objects: trees by heap       *)
(* number, noise scale, prior parameters, and the model's predictions.                 *)
(* "adopt": a sample an estimator's fit stored; whatever is done with the estimator     *)
(* afterwards leaves it as it was.                                                      *)
EXTENDS TraceLib
VARIABLES live, snaps
vars == <<live, snaps, lvars>>
TInit == LInit /\ live = << >> /\ snaps = << >>
StateFails(tag, want, got, who) ==
    Clause(tag \o "trees", want.trees = got.trees, <<who, "expected", want.trees, "got", got.trees>>)
    \cup Clause(tag \o "noise", want.sg = got.sg, <<who, "expected", want.sg, "got", got.sg>>)
    \cup Clause(tag \o "prior", want.prior = got.prior, <<who, "expected", want.prior, "got", got.prior>>)
    \cup Clause(tag \o "predictions", want.pred = got.pred, <<who, "expected", want.pred, "got", got.pred>>)
LinkFails(e, who) == Clause("C10.links", e.outside = 0 /\ e.shared = 0, <<who, "links to nodes outside", e.outside, "nodes shared with another model", e.shared>>)
TNext ==
    /\ MoreEvents
    /\ LET e == Ev IN
        CASE e.op = "live" -> (live' = e.st /\ UNCHANGED snaps /\ Advance({}))
          [] e.op = "store" -> (snaps' = Append(snaps, live) /\ UNCHANGED live /\
                                Advance(StateFails("C10.copy_", live, e.st, <<"sample", Len(snaps) + 1>>) \cup LinkFails(e, <<"sample", Len(snaps) + 1>>)))
          [] e.op = "adopt" -> (snaps' = Append(snaps, e.st) /\ UNCHANGED live /\ Advance(LinkFails(e, <<"sample", Len(snaps) + 1>>)))
          [] e.op = "edit" -> (snaps' = [snaps EXCEPT ![e.i] = e.st] /\ UNCHANGED live /\ Advance({}))
          [] e.op = "look" -> (UNCHANGED <<live, snaps>> /\
                                Advance(StateFails("C10.kept_", snaps[e.i], e.st, <<"sample", e.i>>) \cup LinkFails(e, <<"sample", e.i>>)))
          [] e.op = "looklive" -> (UNCHANGED <<live, snaps>> /\ Advance(StateFails("C10.live_", live, e.st, "live model")))
          [] e.op = "error" -> (UNCHANGED <<live, snaps>> /\ Advance({<<"ANY.raise", e.what>>}))
TSpec == TInit /\ [][TNext]_vars
===============================================================================
