-------------------------------- MODULE MCUnits -------------------------------
(* The unit map of BartEstimator on all small targets, and a fit abstracted to any     *)
(* normalised prediction: reported values move with shifts and positive rescalings.     *)
EXTENDS BartEstimator, TLC
CONSTANTS N, Lo, Hi, Shifts, Factors
VARIABLES y, z, a, b
uvars == <<est, y, z, a, b>>
Vals == {v - Lo : v \in 0..(Lo + Hi)}
MInit == EInit([wantp |-> 0]) /\ y \in [1..N -> Vals] /\ z \in {0 - 500000, 0 - 123456, 0, 250000, 500000, 700000} /\ a \in Factors /\ b \in Shifts
MNext == UNCHANGED uvars
MSpec == MInit /\ [][MNext]_uvars
AbsD(x) == IF x < 0 THEN 0 - x ELSE x
Y2 == [i \in 1..N |-> a * y[i] + b]
Affine == YMin(y) # YMax(y) =>
    /\ \A i \in 1..N : NormOf(y, y[i]) \in (0 - 500000)..500000
    /\ \A i, j \in 1..N : y[i] < y[j] <=> NormOf(y, y[i]) < NormOf(y, y[j])
    /\ NormOf(y, YMin(y)) = 0 - 500000 /\ NormOf(y, YMax(y)) = 500000
Inverse == \A i \in 1..N : AbsD(BackOf(y, NormOf(y, y[i])) - y[i] * 10000) <= 1
Constant == YMin(y) = YMax(y) => BackOf(y, z) = y[1] * 10000
SameNormal == \A i \in 1..N : NormOf(Y2, Y2[i]) = NormOf(y, y[i])
Equivariant == AbsD(BackOf(Y2, z) - (a * BackOf(y, z) + b * 10000)) <= a
===============================================================================
