----------------------------- MODULE BartEstimator ----------------------------
(* The estimator interface (bartpy.sklearnmodel.SklearnModel): parameters, fits,      *)
(* predictions, clones.  An estimator has its current parameters, the data set of its  *)
(* latest completed fit (0: none), the parameters in force at that fit, and whether a   *)
(* later fit was begun that broke off.                                                   *)
EXTENDS BartUnits, FiniteSets
VARIABLES est
EInit(p) == est = << [par |-> p, fit |-> 0, fpar |-> p, brk |-> 0] >>
Fit(e, d) == /\ e \in 1..Len(est)
             /\ est' = [est EXCEPT ![e].fit = d, ![e].fpar = est[e].par, ![e].brk = 0]
\* a fit that breaks off in one of its chains: nothing of it may be seen, what was there before need not survive
FitBreaks(e) == e \in 1..Len(est) /\ est' = [est EXCEPT ![e].brk = 1]
SetParams(e, p) == e \in 1..Len(est) /\ est' = [est EXCEPT ![e].par = p]
CloneOf(e) == e \in 1..Len(est) /\ est' = Append(est, [par |-> est[e].par, fit |-> 0, fpar |-> est[e].par, brk |-> 0])
\* a deep copy, in memory or through a file: fitted as the original is, and from then on a life of its own
CopyOf(e) == e \in 1..Len(est) /\ est' = Append(est, est[e])
Refused(e) == est' = est
\* the caller overwrites, in place, the arrays an estimator was fitted on: no fitted estimator notices
CallerOverwrites(d) == est' = est

\* what in-sample prediction without an argument must do: 1 answer, 0 refuse, 2 either
InSampleRule(x) == IF x.brk = 1 THEN (IF x.fit = 0 \/ x.fpar.wantp = 0 THEN 0 ELSE 2) ELSE IF x.fpar.wantp = 0 THEN 0 ELSE IF x.par.wantp = 1 THEN 1 ELSE 2

===============================================================================
