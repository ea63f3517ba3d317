------------------------------- MODULE TraceExt -------------------------------
(* Recorded use of real residual extensions.  Targets Tr.Y[d] are integers in base      *)
(* units, everything else in original units is in 10^-4 base units.  e.bp: predictions    *)
(* of an independent base model fitted on the same data; e.sp: normalised predictions     *)
(* of the stored BART samples.                                                             *)
EXTENDS BartExtension, FixMath, TraceLib
vars == <<xvars, lvars>>
TInit == LInit /\ XInit(Tr.par)
Max(s) == CHOOSE m \in {s[i] : i \in 1..Len(s)} : \A i \in 1..Len(s) : m >= s[i]
Min(s) == CHOOSE m \in {s[i] : i \in 1..Len(s)} : \A i \in 1..Len(s) : m <= s[i]
RECURSIVE SumCol(_, _, _)
SumCol(m, r, k) == IF k = 0 THEN 0 ELSE m[k][r] + SumCol(m, r, k - 1)
VecNear(got, want, tol) == Len(got) = Len(want) /\ \A r \in 1..Len(want) : Near(got[r], want[r], tol)
Full(y) == [r \in 1..Len(y) |-> y[r] * 10000]
Span(r) == Max(r) - Min(r)
NormR(r, v) == FixDivS(2 * v - Max(r) - Min(r), 2 * Span(r))
BackR(r, z) == Min(r) + MulFix(z + 500000, Span(r))
Tol(r) == 8 + Span(r) \div 100000
\* what BART adds for the rows of sp, given the residual target r it was fitted on
BartPart(r, sp) == [k \in 1..Len(sp[1]) |-> BackR(r, SumCol(sp, k, Len(sp)) \div Len(sp))]
ParFails(e, want, who) == Clause("C15.params", e.now = want, <<who, "expected", want, "got", e.now>>)
KeptFails(e) == Clause("C15.caller", e.kept = 1, "the caller's data were changed")
FitFails(e) ==
    LET r == SubSeqs(Full(Tr.Y[e.d]), e.bp) IN
    ParFails(e, ext[e.e].par, "after fit") \cup KeptFails(e)
    \cup Clause("C15.self", e.self = 1, "fit does not return the extension")
    \cup Clause("C15.residualtarget", VecNear(e.unn, r, 3), <<"expected", r, "got", e.unn>>)
    \cup Clause("C15.rows", e.rows = 1, "BART was not fitted on the covariates passed in")
    \cup (IF Span(r) < 1000 THEN {} ELSE
          UNION {Clause("C15.target", VecNear(e.targets[c], [k \in 1..Len(r) |-> NormR(r, r[k])], 4 + 3000000 \div Span(r)), <<"chain", c, "saw", e.targets[c], "residuals", r>>) : c \in 1..Len(e.targets)})
    \cup Clause("C15.chains", Len(e.targets) = ext[e.e].par.chains /\ e.count = ext[e.e].par.chains * ext[e.e].par.samp, <<"chains", Len(e.targets), "samples", e.count>>)
    \cup Clause("C15.samples", e.nt = ext[e.e].par.nt, <<"trees", e.nt>>)
\* e.tbp: base predictions of the training rows
PredOf(e) == AddSeq(e.bp, BartPart(SubSeqs(Full(Tr.Y[ext[e.e].bart[1]]), e.tbp), e.sp))
TolOf(e) == Tol(SubSeqs(Full(Tr.Y[ext[e.e].bart[1]]), e.tbp))
PredFails(e) == Clause("C15.predict", VecNear(e.res, PredOf(e), TolOf(e)), <<e.kind, "expected", PredOf(e), "got", e.res>>) \cup KeptFails(e)
ResFails(e) == LET r == SubSeqs(e.y, PredOf(e)) h(i) == r[i] \div 100 IN
               Clause("C15.residuals", VecNear(e.res, r, TolOf(e)), <<e.kind, "expected", r, "got", e.res>>)
               \cup Clause("C15.l2", Len(e.l2) = Len(r) /\ \A i \in 1..Len(r) : AbsV(h(i)) > 30000 \/ Near(e.l2[i], h(i) * h(i), 3 * AbsV(h(i)) + 5), <<"residuals", r, "squares", e.l2>>)
               \cup KeptFails(e)
\* after a broken fit an extension may refuse, and must if it was never fitted; what it answers is its last completed fit
Refuses(e, fails(_)) == IF e.refused = 1 THEN {}
                        ELSE IF ext[e.e].bart = << >> \/ ~Has(e, "res") THEN {<<"C15.broken", "an answer from an extension whose only fits broke off">>}
                        ELSE fails(e)
TNext ==
    /\ MoreEvents
    /\ LET e == Ev IN
        CASE e.op = "fit" -> (Fit(e.e, e.d) /\ Advance(FitFails(e)))
          [] e.op = "broken" -> (FitBreaks(e.e) /\ Advance(Clause("C15.failure", e.raised = 1, "the failure of a chain was swallowed") \cup ParFails(e, ext[e.e].par, "after a broken fit") \cup KeptFails(e)))
          [] e.op = "set" -> (Set(e.e, e.p) /\ Advance(ParFails(e, e.p, "after set_params")))
          [] e.op = "copy" -> (CopyOf(e.e) /\ Advance(ParFails(e, ext[e.e].par, "copy")))
          [] e.op = "clone" -> (CloneOf(e.e) /\ Advance(ParFails(e, ext[e.e].par, "clone") \cup Clause("C15.clonebase", e.fresh = 1, "the clone shares its base model or is fitted")))
          [] e.op = "twin" -> (TwinOf(e.e) /\ Advance(ParFails(e, ext[e.e].par, "built from the same objects")))
          [] e.op = "scribble" -> (CallerOverwrites(e.d) /\ Advance({}))
          [] e.op = "predict" -> (UNCHANGED xvars /\ Advance(Refuses(e, PredFails)))
          [] e.op = "resid" -> (UNCHANGED xvars /\ Advance(Refuses(e, ResFails)))
          [] e.op = "error" -> (UNCHANGED xvars /\ Advance({<<"ANY.raise", e.what>>}))
TSpec == TInit /\ [][TNext]_vars
===============================================================================
