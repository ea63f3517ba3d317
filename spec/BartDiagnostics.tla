---------------------------- MODULE BartDiagnostics ---------------------------
(* Diagnostic plots (bartpy.diagnostics, bartpy.plotting).  The model holds the records *)
(* of its latest fit; a drawing is a function of these records alone.  A record is       *)
(* [depths: one sequence of node depths per tree, sg: noise scale, acc: acceptance       *)
(* rate, vars: per tree the split variables].                                             *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES records,      \* of the latest fit
          drawn         \* drawings made so far: <<kind, series>>
dvars == <<records, drawn>>

RECURSIVE Flat(_)
Flat(ss) == IF ss = << >> THEN << >> ELSE Head(ss) \o Flat(Tail(ss))
RECURSIVE SumOf(_)
SumOf(s) == IF s = << >> THEN 0 ELSE Head(s) + SumOf(Tail(s))
SetMin(s) == CHOOSE m \in {s[i] : i \in 1..Len(s)} : \A i \in 1..Len(s) : m <= s[i]
SetMax(s) == CHOOSE m \in {s[i] : i \in 1..Len(s)} : \A i \in 1..Len(s) : m >= s[i]

MinSeries(rs) == [k \in 1..Len(rs) |-> SetMin(Flat(rs[k].depths))]
MaxSeries(rs) == [k \in 1..Len(rs) |-> SetMax(Flat(rs[k].depths))]
\* mean depth over all nodes of all trees, in 10^-6
MeanSeries(rs) == [k \in 1..Len(rs) |-> LET f == Flat(rs[k].depths) IN (1000000 * SumOf(f)) \div Len(f)]
NoiseSeries(rs) == [k \in 1..Len(rs) |-> rs[k].sg]
AcceptSeries(rs) == [k \in 1..Len(rs) |-> rs[k].acc]
CountVar(s, v) == Cardinality({i \in 1..Len(s) : s[i] = v})
AllVars(rs) == Flat([k \in 1..Len(rs) |-> Flat(rs[k].vars)])
\* per used variable in ascending order its share in 10^-6
UsedVars(rs) == {AllVars(rs)[i] : i \in 1..Len(AllVars(rs))}
NthVar(rs, k) == CHOOSE v \in UsedVars(rs) : Cardinality({u \in UsedVars(rs) : u < v}) = k - 1
ShareBars(rs) == [k \in 1..Cardinality(UsedVars(rs)) |-> <<NthVar(rs, k), (1000000 * CountVar(AllVars(rs), NthVar(rs, k))) \div Len(AllVars(rs))>>]

Drawing(kind, rs) ==
    CASE kind = "depth" -> <<MinSeries(rs), MeanSeries(rs), MaxSeries(rs)>>
      [] kind = "noise" -> NoiseSeries(rs)
      [] kind = "acceptance" -> AcceptSeries(rs)
      [] kind = "shares" -> ShareBars(rs)
FitRecords(rs) == records' = rs /\ UNCHANGED drawn
Draw(kind) == records # << >> /\ drawn' = Append(drawn, <<kind, Drawing(kind, records)>>) /\ UNCHANGED records
===============================================================================
