------------------------------- MODULE BartUnits ------------------------------
(* The units of the target (bartpy.data.Target): inside the sampler targets run from    *)
(* -1/2 to 1/2; everything reported is in the caller's units.                            *)
EXTENDS Integers, Sequences
(* the affine unit map of a target y (integers): range onto [-1/2, 1/2] *)
YMin(y) == CHOOSE m \in {y[i] : i \in 1..Len(y)} : \A i \in 1..Len(y) : m <= y[i]
YMax(y) == CHOOSE m \in {y[i] : i \in 1..Len(y)} : \A i \in 1..Len(y) : m >= y[i]
\* normalised value in 10^-6
NormOf(y, v) == LET a == YMin(y) b == YMax(y) IN IF a = b THEN 0 ELSE ((2 * v - a - b) * 500000) \div (b - a)
\* normalised z (10^-6) in original units (10^-4)
BackOf(y, z) == LET a == YMin(y) b == YMax(y) IN a * 10000 + ((z + 500000) * (b - a)) \div 100
Range(y) == YMax(y) - YMin(y)
(* the reported prediction: mean over stored samples (sp[k][r], normalised) in original units *)
RECURSIVE SumCol(_, _, _)
SumCol(m, r, k) == IF k = 0 THEN 0 ELSE m[k][r] + SumCol(m, r, k - 1)
MeanCol(m, r) == SumCol(m, r, Len(m)) \div Len(m)
Expected(y, sp) == [r \in 1..Len(sp[1]) |-> BackOf(y, MeanCol(sp, r))]
UnitTol(y) == 4 + Range(y) \div 50
===============================================================================
