-------------------------------- MODULE MCDraws -------------------------------
(* The closed forms of BartDraws against Bayesian updating row by row: starting      *)
(* from the prior, each row multiplies in its own normal density.                     *)
EXTENDS BartDraws, Sequences
CONSTANTS MaxRows, Ys, Vs, Ms
VARIABLES v, m, n, s, prec, wsum, ssr, shape2
vars == <<v, m, n, s, prec, wsum, ssr, shape2>>
\* posterior in precision form, common denominator v*m: precision prec/(v m), precision times mean wsum/(v m)
MInit == /\ v \in Vs /\ m \in Ms
         /\ n = 0 /\ s = 0 /\ prec = v /\ wsum = 0 /\ ssr = 0 /\ shape2 = 4
Row(yv) == /\ n < MaxRows
           /\ n' = n + 1 /\ s' = s + yv
           /\ prec' = prec + m /\ wsum' = wsum + m * yv
           /\ ssr' = ssr + yv * yv /\ shape2' = shape2 + 1
           /\ UNCHANGED <<v, m>>
MNext == \E k \in Ys : Row(k - 3)
MSpec == MInit /\ [][MNext]_vars
\* mean = wsum/prec, variance = v m / prec
MeanAgrees == LET q == MeanQ(v, m, 1, 1, n, s) IN q[1] * prec = wsum * q[2]
VarAgrees == LET q == VarQ(v, m, 1, n) IN q[1] * prec = v * m * q[2]
ShapeAgrees == shape2 = 4 + n
Shrinks == n > 0 => LET q == MeanQ(v, m, 1, 1, n, s) IN (IF s >= 0 THEN q[1] * n <= s * q[2] ELSE q[1] * n >= s * q[2])
\* tails of the noise distribution: decreasing, one at zero, and the exponential for shape one
TailLaws == /\ TailOf(1, 500000) = ExpNeg(0 - 500000)
            /\ \A k \in 1..6 : TailOf(k, 0) = U /\ TailOf(k, 1000000) >= TailOf(k, 2000000) /\ TailOf(k, 1500000) <= TailOf(k + 1, 1500000)
FixAgrees == /\ v + n * m <= 4000 =>
               LET a == MeanFix(v * 1, m * 1, 16, 4, n, s) q == MeanQ(v, m, 16, 4, n, s) IN a = FixDivS(q[1], q[2])
===============================================================================
