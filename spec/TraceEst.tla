------------------------------- MODULE TraceEst -------------------------------
(* Recorded use of real estimators.  Tr.Y[d] is the target of data set d in integer    *)
(* base units; everything reported in original units is recorded in 10^-4 base units,  *)
(* normalised values in 10^-6.  sp: predictions of every stored sample (normalised).    *)
EXTENDS BartEstimator, FixMath, TraceLib
VARIABLES nothing
vars == <<est, nothing, lvars>>
TInit == LInit /\ nothing = 0 /\ EInit(Tr.par)
CeilDiv(a, b) == (a + b - 1) \div b
VecNear(got, want, tol) == Len(got) = Len(want) /\ \A r \in 1..Len(want) : Near(got[r], want[r], tol)

ParFails(e, want, who) == Clause("C12.params", e.now = want, <<who, "expected", want, "got", e.now>>)
KeptFails(e) == Clause("C12.caller", e.kept = 1, "the caller's data were changed")

(* e.models: per stored sample <<trees, alpha, beta, sigma a, sigma b>>; e.chains: per chain run <<sweeps>>;
   e.targets: normalised target each chain's model was given *)
FitFails(e) ==
    LET p == est[e.e].par y == Tr.Y[e.d] n == CeilDiv(p.samp * p.tn, p.td) * p.chains IN
    ParFails(e, p, "after fit") \cup KeptFails(e)
    \cup Clause("C12.self", e.self = 1, "fit does not return the estimator")
    \cup Clause("C12.samples", Len(e.models) = n, <<"stored", Len(e.models), "samples instead of", n>>)
    \cup Clause("C12.predstore", e.preds = (IF p.wantp = 1 THEN n ELSE 0) /\ e.accs = (IF p.wanta = 1 THEN n ELSE 0), <<e.preds, e.accs>>)
    \cup Clause("C12.sampler", Len(e.chains) = p.chains /\ \A c \in 1..Len(e.chains) : e.chains[c] = p.burn + p.samp, <<"sweeps of the configured tree sampler per chain", e.chains>>)
    \cup UNION {Clause("C12.modelparams", e.models[k] = <<p.nt, p.al, p.be, p.sa, p.sb>>, <<"sample", k, e.models[k], "parameters", p>>) : k \in 1..Len(e.models)}
    \cup UNION {Clause("C11+C12.target", VecNear(e.targets[c], [r \in 1..Len(y) |-> NormOf(y, y[r])], 3) \/ Range(y) = 0,
                       <<"chain", c, "saw", e.targets[c], "of", y>>) : c \in 1..Len(e.targets)}
InFails(e) ==
    LET x == est[e.e] rule == InSampleRule(x) IN
    IF e.raised = 1 THEN Clause("C12.refused", x.brk = 1 \/ (rule # 1 /\ e.exc = "ValueError"), <<"in-sample prediction raised", e.exc>>)
    ELSE Clause("C12.mustrefuse", rule # 0, "in-sample prediction answered without stored predictions")
         \cup (IF rule = 0 THEN {} ELSE Clause("C11+C12.insample", VecNear(e.res, Expected(Tr.Y[x.fit], e.sp), UnitTol(Tr.Y[x.fit])), <<"expected", Expected(Tr.Y[x.fit], e.sp), "got", e.res>>))
\* kind: array or frame; e.sp recorded from the stored samples themselves for the same rows
\* after a broken fit an estimator may refuse, and must if it was never fitted; what it answers is its last completed fit
Refuses(e, fails(_)) == IF e.refused = 1 THEN {}
                        ELSE IF est[e.e].fit = 0 THEN {<<"C12.broken", "an answer from an estimator whose only fits broke off">>}
                        ELSE fails(e)
PredFails(e) ==
    LET y == Tr.Y[est[e.e].fit] IN
    Clause("C11+C12.predict", VecNear(e.res, Expected(y, e.sp), UnitTol(y)), <<e.kind, "expected", Expected(y, e.sp), "got", e.res>>)
    \cup KeptFails(e)
\* residuals, squared errors and total error against the target e.y (10^-4 base units)
ResFails(e) ==
    LET y == Tr.Y[est[e.e].fit]
        p == Expected(y, e.sp)
        r == [i \in 1..Len(p) |-> e.y[i] - p[i]]
        h(i) == r[i] \div 100
        RECURSIVE Sq(_)
        Sq(i) == IF i = 0 THEN 0 ELSE h(i) * h(i) + Sq(i - 1)
    IN  Clause("C11+C12.residuals", VecNear(e.res, r, UnitTol(y)), <<e.kind, "expected", r, "got", e.res>>)
        \cup Clause("C11+C12.l2", Len(e.l2) = Len(r) /\ \A i \in 1..Len(r) : Near(e.l2[i], h(i) * h(i), 3 * AbsV(h(i)) + 5), <<"residuals", r, "squares", e.l2>>)
        \cup (IF Has(e, "rmse") THEN Clause("C11+C12.rmse", Near(e.rmse, ISqrt(Sq(Len(r))), 5 + Len(r)), <<"expected", ISqrt(Sq(Len(r))), "got", e.rmse>>) ELSE {})
        \cup KeptFails(e)

(* normalisation of a target: e.vals 10^-6, e.back and e.probe in 10^-4 base units, probes z in 10^-6 *)
NormFails(e) ==
    LET y == e.y IN
    (IF Range(y) = 0 THEN Clause("C11.constant", \A i \in 1..Len(y) : AbsV(e.vals[i]) <= 500000, e.vals)
     ELSE Clause("C11.range", VecNear(e.vals, [i \in 1..Len(y) |-> NormOf(y, y[i])], 3), <<y, e.vals>>)
          \cup Clause("C11.ends", \E i \in 1..Len(y) : e.ends = <<1, 1>>, "the extremes are not mapped to -1/2 and 1/2")
          \cup Clause("C11.order", e.order = 1, "order changed")
          \cup Clause("C11.scale", Near(e.scale, Range(y) * 10000, 2), <<e.scale, Range(y)>>))
    \cup Clause("C11.inverse", VecNear(e.back, [i \in 1..Len(y) |-> y[i] * 10000], 2), <<y, e.back>>)
    \cup UNION {Clause("C11.unnormalise", Near(e.probe[k][2], BackOf(y, e.probe[k][1]), UnitTol(y)), <<y, e.probe[k]>>) : k \in 1..Len(e.probe)}
(* a low level model: normalised prediction p, residuals in original units *)
ModelFails(e) ==
    LET y == e.y IN
    Clause("C11.modelresiduals", \A i \in 1..Len(y) : Near(e.res[i], y[i] * 10000 - BackOf(y, e.p[i]), UnitTol(y)), <<y, e.p, e.res>>)
    \cup Clause("C11.noise", Near(e.noise, (e.sg * Range(y)) \div 100, UnitTol(y)), <<"noise", e.sg, "range", Range(y), "reported", e.noise>>)
(* the same draws on target y and a*y + b *)
EquivFails(e) == Clause("C11.equivariant", VecNear(e.p2, [i \in 1..Len(e.p1) |-> e.a * e.p1[i] + e.b * 10000], 2 + e.a), <<e.a, e.b, e.p1, e.p2>>)
(* very many samples: their sums instead of themselves *)
PlentyFails(e) == Clause("C12.samples", e.n = e.want, <<"stored", e.n, "samples instead of", e.want>>)
    \cup Clause("C11+C12.predict", e.n = 0 \/ VecNear(e.res, [i \in 1..Len(e.sums) |-> BackOf(e.y, e.sums[i] \div e.n)], UnitTol(e.y)),
                <<"sums", e.sums, "of", e.n, "samples; predicted", e.res>>)

TNext ==
    /\ MoreEvents
    /\ UNCHANGED nothing
    /\ LET e == Ev IN
        CASE e.op = "fit" -> (Fit(e.e, e.d) /\ Advance(FitFails(e)))
          [] e.op = "broken" -> (FitBreaks(e.e) /\ Advance(Clause("C12.failure", e.raised = 1, "the failure of a chain was swallowed") \cup ParFails(e, est[e.e].par, "after a broken fit") \cup KeptFails(e)))
          [] e.op = "set" -> (SetParams(e.e, [f \in DOMAIN est[e.e].par |-> IF f \in DOMAIN e.p THEN e.p[f] ELSE est[e.e].par[f]]) /\
                              Advance(ParFails(e, [f \in DOMAIN est[e.e].par |-> IF f \in DOMAIN e.p THEN e.p[f] ELSE est[e.e].par[f]], "after set_params")))
          [] e.op = "clone" -> (CloneOf(e.e) /\ Advance(ParFails(e, est[e.e].par, "clone")))
          [] e.op = "copy" -> (CopyOf(e.e) /\ Advance(ParFails(e, est[e.e].par, "copy")))
          [] e.op = "scribble" -> (CallerOverwrites(e.d) /\ Advance({}))
          [] e.op = "empty" -> (UNCHANGED est /\ Advance(Clause("C12.empty", e.raised = 1 /\ e.exc = "ValueError", e)))
          [] e.op = "pin" -> (UNCHANGED est /\ Advance(InFails(e)))
          [] e.op = "pq" -> (UNCHANGED est /\ Advance(Refuses(e, PredFails)))
          [] e.op = "resid" -> (UNCHANGED est /\ Advance(Refuses(e, ResFails)))
          [] e.op = "norm" -> (UNCHANGED est /\ Advance(NormFails(e)))
          [] e.op = "model" -> (UNCHANGED est /\ Advance(ModelFails(e)))
          [] e.op = "equiv" -> (UNCHANGED est /\ Advance(EquivFails(e)))
          [] e.op = "plenty" -> (UNCHANGED est /\ Advance(PlentyFails(e)))
          [] e.op = "error" -> (UNCHANGED est /\ Advance({<<"ANY.raise", e.what>>}))
TSpec == TInit /\ [][TNext]_vars
===============================================================================
