--------------------------------- MODULE MCEst --------------------------------
(* All short histories of two estimators on three data sets; each transition is       *)
(* printed with the history that reaches it and is played against the real estimator.  *)
EXTENDS BartEstimator, TLC, Json
CONSTANTS MaxHist, MaxEst
VARIABLES hist,
          shown        \* what the last prediction was based on: <<data, parameters>>
P0 == [wantp |-> 0, nt |-> 2, chains |-> 1]
MInit == EInit(P0) /\ hist = << >> /\ shown = << >>
Changes(p) == {[p EXCEPT !.wantp = 1 - @], [p EXCEPT !.nt = 5 - @], [p EXCEPT !.chains = 3 - @]}
H(x) == hist' = Append(hist, x)
Answers(e) == est[e].fit # 0 \/ est[e].brk = 1
MNext == /\ Len(hist) < MaxHist
         /\ \E e \in 1..Len(est) :
              \/ \E d \in 1..3 : Fit(e, d) /\ H(<<"fit", e, d>>) /\ UNCHANGED shown
              \/ \E d \in 1..3 : FitBreaks(e) /\ H(<<"broken", e, d>>) /\ UNCHANGED shown
              \/ \E p \in Changes(est[e].par) : SetParams(e, p) /\ H(<<"set", e, p>>) /\ UNCHANGED shown
              \/ Len(est) < MaxEst /\ CloneOf(e) /\ H(<<"clone", e>>) /\ UNCHANGED shown
              \/ Len(est) < MaxEst /\ CopyOf(e) /\ H(<<"copy", e>>) /\ UNCHANGED shown
              \/ Refused(e) /\ H(<<"empty", e>>) /\ UNCHANGED shown
              \/ Answers(e) /\ Refused(e) /\ H(<<"pin", e>>) /\ shown' = <<est[e].fit, est[e].fpar>>
              \/ Answers(e) /\ Refused(e) /\ H(<<"pq", e>>) /\ shown' = <<est[e].fit, est[e].fpar>>
MSpec == MInit /\ [][MNext]_<<est, hist, shown>>
MView == <<est, Len(hist)>>
\* the latest fit of e in h, followed into the estimator it was copied from; e came about at step Born
Made(h) == {i \in 1..Len(h) : h[i][1] \in {"clone", "copy"}}
Born(h, e) == IF e = 1 THEN 0 ELSE CHOOSE i \in Made(h) : Cardinality({j \in Made(h) : j <= i}) = e - 1
RECURSIVE LastFit(_, _)
LastFit(h, e) == LET b == Born(h, e)
                     S == {i \in 1..Len(h) : i > b /\ h[i][1] = "fit" /\ h[i][2] = e} IN
                 IF S # {} THEN h[CHOOSE i \in S : \A j \in S : j <= i][3]
                 ELSE IF b = 0 \/ h[b][1] = "clone" THEN 0 ELSE LastFit(SubSeq(h, 1, b - 1), h[b][2])
OnlyLatest == \A e \in 1..Len(est) : est[e].fit = LastFit(hist, e)
CloneUnfitted == [][Len(est') > Len(est) => est'[Len(est')].fit = 0 \/ hist'[Len(hist')][1] = "copy"]_<<est, hist, shown>>
OthersUntouched == [][\A e \in 1..Len(est) : (est'[e] # est[e]) => hist'[Len(hist')][2] = e]_<<est, hist, shown>>
EmitTransitions == PrintT("@T" \o ToJson(hist'))
===============================================================================
