------------------------------- MODULE TraceDiag ------------------------------
(* Recorded fits and drawings.  Noise scales, acceptance rates and shares in 10^-6,     *)
(* fitted values and residuals in 10^-4 base units of the target e.y, standardised      *)
(* quantiles in 10^-3.                                                                    *)
EXTENDS BartDiagnostics, BartUnits, FixMath, TraceLib
VARIABLES fitd      \* [y, sp] of the latest fit
vars == <<dvars, fitd, lvars>>
TInit == LInit /\ records = << >> /\ drawn = << >> /\ fitd = << >>
VecNear(got, want, tol) == Len(got) = Len(want) /\ \A r \in 1..Len(want) : Near(got[r], want[r], tol)
RECURSIVE SortInts(_)
SortInts(s) == IF s = << >> THEN << >>
               ELSE LET i == CHOOSE i \in 1..Len(s) : \A j \in 1..Len(s) : s[i] <= s[j] IN
                    <<s[i]>> \o SortInts([j \in 1..(Len(s) - 1) |-> IF j < i THEN s[j] ELSE s[j + 1]])
Fitted == Expected(fitd.y, fitd.sp)
Resid == [r \in 1..Len(fitd.y) |-> fitd.y[r] * 10000 - Fitted[r]]
Sds(r) ==     \* mean and standard deviation of r (10^-4) in 10^-2
    LET h == [i \in 1..Len(r) |-> r[i] \div 100]
        m == SumOf(h) \div Len(h)
        RECURSIVE Sq(_)
        Sq(i) == IF i = 0 THEN 0 ELSE (h[i] - m) * (h[i] - m) + Sq(i - 1)
    IN <<m, ISqrt(Sq(Len(h)) \div Len(h))>>
SeriesFails(e) ==
    LET want == Drawing(e.kind, records) IN
    CASE e.kind = "depth" -> Clause("C19.depth", Len(e.got) = 3 /\ e.got[1] = want[1] /\ VecNear(e.got[2], want[2], 2) /\ e.got[3] = want[3], <<"expected", want, "got", e.got>>)
      [] e.kind = "noise" -> Clause("C19.noise", VecNear(e.got, want, 1), <<"expected", want, "got", e.got>>)
      [] e.kind = "acceptance" -> Clause("C19.acceptance", VecNear(e.got, want, 1), <<"expected", want, "got", e.got>>)
      [] e.kind = "shares" -> Clause("C19.shares", Len(e.got) = Len(want) /\ \A k \in 1..Len(want) : e.got[k][1] = want[k][1] /\ Near(e.got[k][2], want[k][2], 2), <<"expected", want, "got", e.got>>)
      [] e.kind = "fitted" -> Clause("C19.fitted", VecNear(e.got[1], Fitted, UnitTol(fitd.y)) /\ VecNear(e.got[2], Resid, UnitTol(fitd.y)),
                                     <<"expected", Fitted, Resid, "got", e.got>>)
      [] e.kind = "residuals" -> Clause("C19.residuals", VecNear(e.got, Resid, UnitTol(fitd.y)), <<"expected", Resid, "got", e.got>>)
      [] e.kind = "actual" -> Clause("C19.actual", Len(e.got) = 2 /\ VecNear(e.got[1], [r \in 1..Len(fitd.y) |-> fitd.y[r] * 10000], 4) /\ VecNear(e.got[2], Fitted, UnitTol(fitd.y)),
                                     <<"expected", fitd.y, Fitted, "got", e.got>>)
      [] e.kind = "quantiles" ->
            LET ms == Sds(Resid) o == SortInts(Resid) IN
            Clause("C19.quantileorder", \A i \in 1..(Len(e.got) - 1) : e.got[i] <= e.got[i + 1] /\ e.xs[i] <= e.xs[i + 1], e.got)
            \cup Clause("C19.quantiles", Len(e.got) = Len(o) /\ (ms[2] < 100 \/ \A i \in 1..Len(o) : Near(e.got[i], ((o[i] \div 100 - ms[1]) * 1000) \div ms[2], 5 + 4000 \div ms[2])),
                        <<"expected residuals", o, "mean and deviation", ms, "got", e.got>>)
DrawFails(e) == SeriesFails(e)
    \cup Clause("C19.passive", e.kept = 1, <<"drawing", e.kind, "changed the model">>)
    \cup Clause("C19.axes", e.only = 1, <<e.kind, "was not drawn on the axes asked for, and only there">>)
TNext ==
    /\ MoreEvents
    /\ LET e == Ev IN
        CASE e.op = "fit" -> (FitRecords(e.records) /\ fitd' = [y |-> e.y, sp |-> e.sp] /\ Advance({}))
          [] e.op = "draw" -> (UNCHANGED <<dvars, fitd>> /\ Advance(DrawFails(e)))
          [] e.op = "error" -> (UNCHANGED <<dvars, fitd>> /\ Advance({<<"ANY.raise", e.what>>}))
TSpec == TInit /\ [][TNext]_vars
===============================================================================
