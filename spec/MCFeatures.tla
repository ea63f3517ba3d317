------------------------------ MODULE MCFeatures ------------------------------
(* All selections over a family of fitted forests and null runs; every selection is    *)
(* printed with what it must yield and played through the real functions.               *)
EXTENDS BartFeatures, TLC, Json
CONSTANTS P, MaxNull, Use
All == << << << << >> >> >>,                                   \* no split at all
          << << <<1>> >> >>,
          << << <<2>>, << >> >>, << <<1>>, << >> >> >>,             \* two samples, half and half
          << << <<1, 1, 2>>, <<1>> >> >>,
          << << <<2, 2>> >>, << << >> >>, << <<2, 1>> >> >>,        \* a sample without splits in between
          << << <<1, 2, 2, 2>> >>, << <<1, 1, 1, 1>> >> >>,
          << << <<3, 1>>, <<3>>, <<2>> >> >>,
          << << <<3>> >> >> >>
Qs == {<<0, 1>>, <<1, 4>>, <<1, 2>>, <<9, 10>>, <<1, 1>>}
\* a forest's variables must be among the P
Forests == {i \in Use : \A s \in 1..Len(All[i]) : \A t \in 1..Len(All[i][s]) : \A k \in 1..Len(All[i][s][t]) : All[i][s][t][k] <= P}
VARIABLES at      \* <<fitted, null runs>> as indices
MInit == FeatInit /\ at = <<0, << >> >>
MNext == \/ forest = << >> /\ \E i \in Forests : FitForest(All[i]) /\ at' = <<i, << >> >>
         \/ forest # << >> /\ chosen = << >> /\ Len(nulls) < MaxNull /\ \E i \in Forests : NullRun(All[i]) /\ at' = <<at[1], Append(at[2], i)>>
         \/ forest # << >> /\ chosen = << >> /\ \E q \in Qs, m \in {"local", "global"} : Select(q, m, P) /\ at' = at
MSpec == MInit /\ [][MNext]_<<fvars, at>>
RECURSIVE FSum(_, _)
FSum(s, n) == IF n = 0 THEN <<0, 1>> ELSE FAdd(s[n], FSum(s, n - 1))
SharesSumToOne == AllSplits(forest) > 0 => FSum(Shares(forest, P), P) = <<1, 1>>
UnusedAreZero == \A v \in 1..P : (v \notin UsedVars(forest, P)) => Share(forest, v) = <<0, 1>>
LocalBelowGlobal == nulls # << >> => \A q \in Qs, v \in 1..P : FLe(Local(nulls, q, P)[v], Global(nulls, q, P)[v])
Monotone == nulls # << >> => \A q, r \in Qs, v \in 1..P : FLe(q, r) => FLe(Local(nulls, q, P)[v], Local(nulls, r, P)[v])
Extremes == nulls # << >> => \A v \in 1..P : /\ Local(nulls, <<1, 1>>, P)[v] = FMax({Share(nulls[i], v) : i \in 1..Len(nulls)})
                                              /\ \A i \in 1..Len(nulls) : FLe(Local(nulls, <<0, 1>>, P)[v], Share(nulls[i], v))
\* a fit compared with nothing but itself keeps nothing
OwnNullKeepsNone == (chosen # << >> /\ \A i \in 1..Len(nulls) : nulls[i] = forest) => \A v \in 1..P : chosen.mask[v] = 0
MaskWidth == chosen # << >> => Len(chosen.mask) = P
EmitSelections == chosen' # << >> => PrintT("@T" \o ToJson([p |-> P, fit |-> at[1], nulls |-> at[2], q |-> chosen'.q, m |-> chosen'.method, thr |-> chosen'.thr,
                                                            mask |-> chosen'.mask, sh |-> Shares(forest, P)]))
EmitForests == at[1] = 0 => PrintT("@F" \o ToJson([p |-> P, all |-> All]))
===============================================================================
