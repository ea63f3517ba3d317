----------------------------- MODULE BartFeatures -----------------------------
(* Split shares, null thresholds and feature selection (bartpy.diagnostics.features,  *)
(* bartpy.features.featureselection).  A forest is a sequence of stored samples, a     *)
(* sample a sequence of trees, a tree the sequence of the variables its decision nodes *)
(* split on.  Shares are exact fractions <<numerator, denominator>>.                    *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES forest,     \* the fitted samples
          nulls,      \* one forest per null run
          chosen      \* << >> or the selection made: [q, method, thr, mask]
fvars == <<forest, nulls, chosen>>

RECURSIVE FGcd2(_, _)
FGcd2(a, b) == IF b = 0 THEN a ELSE FGcd2(b, a % b)
Frac(a, b) == LET g == FGcd2(IF a < 0 THEN 0 - a ELSE a, b) IN IF a = 0 THEN <<0, 1>> ELSE <<a \div g, b \div g>>
FLe(a, b) == a[1] * b[2] <= b[1] * a[2]
FLt(a, b) == a[1] * b[2] < b[1] * a[2]
FAdd(a, b) == Frac(a[1] * b[2] + b[1] * a[2], a[2] * b[2])
FSub(a, b) == Frac(a[1] * b[2] - b[1] * a[2], a[2] * b[2])
FMul(a, b) == Frac(a[1] * b[1], a[2] * b[2])
FMax(S) == CHOOSE m \in S : \A x \in S : FLe(x, m)

(* ------------------------------- shares --------------------------------------- *)
RECURSIVE CountIn(_, _)
CountIn(t, v) == IF t = << >> THEN 0 ELSE (IF Head(t) = v THEN 1 ELSE 0) + CountIn(Tail(t), v)
RECURSIVE CountSample(_, _)
CountSample(smp, v) == IF smp = << >> THEN 0 ELSE CountIn(Head(smp), v) + CountSample(Tail(smp), v)
RECURSIVE Splits(_, _)
Splits(fo, v) == IF fo = << >> THEN 0 ELSE CountSample(Head(fo), v) + Splits(Tail(fo), v)
RECURSIVE LenSample(_)
LenSample(smp) == IF smp = << >> THEN 0 ELSE Len(Head(smp)) + LenSample(Tail(smp))
RECURSIVE AllSplits(_)
AllSplits(fo) == IF fo = << >> THEN 0 ELSE LenSample(Head(fo)) + AllSplits(Tail(fo))
Share(fo, v) == IF AllSplits(fo) = 0 THEN <<0, 1>> ELSE Frac(Splits(fo, v), AllSplits(fo))
Shares(fo, p) == [v \in 1..p |-> Share(fo, v)]
UsedVars(fo, p) == {v \in 1..p : Splits(fo, v) > 0}

(* ------------------------------ thresholds ------------------------------------ *)
RECURSIVE Sorted(_)
Sorted(s) ==       \* selection sort of a sequence of fractions
    IF s = << >> THEN << >>
    ELSE LET i == CHOOSE i \in 1..Len(s) : \A j \in 1..Len(s) : FLe(s[i], s[j]) IN
         <<s[i]>> \o Sorted([j \in 1..(Len(s) - 1) |-> IF j < i THEN s[j] ELSE s[j + 1]])
\* linear interpolation between the order statistics around q * (n - 1)
Quantile(s, q) ==
    LET o == Sorted(s) pos == q[1] * (Len(s) - 1) lo == pos \div q[2] IN
    IF lo = Len(s) - 1 THEN o[Len(s)] ELSE FAdd(o[lo + 1], FMul(FSub(o[lo + 2], o[lo + 1]), Frac(pos % q[2], q[2])))
Local(ns, q, p) == [v \in 1..p |-> Quantile([i \in 1..Len(ns) |-> Share(ns[i], v)], q)]
Global(ns, q, p) == LET m == Quantile([i \in 1..Len(ns) |-> FMax({Share(ns[i], v) : v \in 1..p})], q) IN [v \in 1..p |-> m]
Threshold(ns, q, method, p) == IF method = "local" THEN Local(ns, q, p) ELSE Global(ns, q, p)
KeepMask(sh, thr, p) == [v \in 1..p |-> IF FLt(thr[v], sh[v]) THEN 1 ELSE 0]

(* ------------------------------- actions -------------------------------------- *)
FeatInit == forest = << >> /\ nulls = << >> /\ chosen = << >>
FitForest(fo) == forest' = fo /\ nulls' = << >> /\ chosen' = << >>
NullRun(fo) == nulls' = Append(nulls, fo) /\ chosen' = << >> /\ UNCHANGED forest
Select(q, method, p) ==
    /\ nulls # << >>
    /\ LET thr == Threshold(nulls, q, method, p) IN
         chosen' = [q |-> q, method |-> method, thr |-> thr, mask |-> KeepMask(Shares(forest, p), thr, p)]
    /\ UNCHANGED <<forest, nulls>>
===============================================================================
