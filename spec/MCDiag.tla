-------------------------------- MODULE MCDiag --------------------------------
(* All short histories of fits and drawings; every transition is printed and played     *)
(* against a real estimator whose fits leave real records.                                *)
EXTENDS BartDiagnostics, TLC, Json
CONSTANTS MaxHist
VARIABLES hist
Rec(d, s, a, v) == [depths |-> d, sg |-> s, acc |-> a, vars |-> v]
Fits == << << Rec(<< <<0>>, <<0, 1, 1>> >>, 7, 500000, << << >>, <<2>> >>), Rec(<< <<0, 1, 1, 2, 2>>, <<0>> >>, 8, 0, << <<1, 2>>, << >> >>) >>,
           << Rec(<< <<0>> >>, 3, 1000000, << << >> >>) >>,
           << Rec(<< <<0, 1, 1>>, <<0, 1, 1>> >>, 5, 0, << <<1>>, <<1>> >>), Rec(<< <<0>>, <<0>> >>, 6, 0, << << >>, << >> >>), Rec(<< <<0>>, <<0, 1, 1>> >>, 6, 500000, << << >>, <<3>> >>) >> >>
Kinds == {"depth", "noise", "acceptance", "shares", "fitted", "quantiles", "all", "residuals", "actual"}
MInit == records = << >> /\ drawn = << >> /\ hist = << >>
MNext == /\ Len(hist) < MaxHist
         /\ \/ \E f \in 1..Len(Fits) : FitRecords(Fits[f]) /\ hist' = Append(hist, <<"fit", f>>)
            \/ \E k \in Kinds : (IF k \in {"depth", "noise", "acceptance", "shares"} THEN Draw(k) ELSE (records # << >> /\ UNCHANGED dvars))
                                /\ hist' = Append(hist, <<"draw", k>>)
MSpec == MInit /\ [][MNext]_<<dvars, hist>>
MView == <<records, Len(hist), IF hist = << >> THEN << >> ELSE hist[Len(hist)], IF Len(hist) < 2 THEN << >> ELSE hist[Len(hist) - 1]>>
Bounds == \A k \in 1..Len(records) : MinSeries(records)[k] * 1000000 <= MeanSeries(records)[k] /\ MeanSeries(records)[k] <= MaxSeries(records)[k] * 1000000
RootIsShallowest == \A k \in 1..Len(records) : MinSeries(records)[k] = 0
OneValuePerRecord == \A i \in 1..Len(drawn) : drawn[i][1] \in {"noise", "acceptance"} => Len(drawn[i][2]) \in {Len(Fits[f]) : f \in 1..Len(Fits)}
DrawingsStay == [][Len(drawn') >= Len(drawn) /\ \A i \in 1..Len(drawn) : drawn'[i] = drawn[i]]_<<dvars, hist>>
DrawingIsPassive == [][(hist' # hist /\ hist'[Len(hist')][1] = "draw") => records' = records]_<<dvars, hist>>
EmitTransitions == PrintT("@T" \o ToJson(hist'))
===============================================================================
