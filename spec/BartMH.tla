-------------------------------- MODULE BartMH --------------------------------
(* The Metropolis-Hastings step on one tree.  Parameters p:                        *)
(*   p.an/p.ad  alpha       p.b10/10  beta      p.pg, p.pp  proposal weights         *)
(*   p.v/p.d    noise variance    p.m/p.d  leaf prior variance                       *)
(*   p.g        targets are integers in units of 1/p.g                               *)
(* Logarithms are fixed point, unit 10^-6.                                           *)
EXTENDS BartPropose, FixMath

RECURSIVE IPow(_, _)
IPow(a, n) == IF n = 0 THEN 1 ELSE a * IPow(a, n - 1)
LnRat(q) == Ln(q[1]) - Ln(q[2])
LnSplit(p, d) == Ln(p.an) - Ln(p.ad) - (p.b10 * Ln(1 + d)) \div 10
LnNoSplit(p, d) ==
    IF p.b10 % 10 = 0
    THEN LET q == p.ad * IPow(1 + d, p.b10 \div 10) IN Ln(q - p.an) - Ln(q)
    ELSE Ln(U - ExpNeg(LnSplit(p, d))) - Ln(U)

\* marginal likelihood of a leaf with n rows summing to s, up to factors all trees share
LnLeafML(p, n, s) ==
    (Ln(p.v) - Ln(p.v + n * p.m)) \div 2 + FixDiv(p.m * p.d * s * s, 2 * p.v * p.g * p.g * (p.v + n * p.m))

RECURSIVE SumOver(_, _)
SumOver(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumOver(f, S \ {x})

LnRule(rw, i, v, c) == LnRat(VarWeight(rw, i)) + LnRat(CutWeight(rw, i, v, c))
LnPost(p, t, rw, yy) ==
    SumOver([i \in DOMAIN t.lv |-> LnNoSplit(p, DepthOf(i)) + LnLeafML(p, Cardinality(rw[i]), SumRows(yy, rw[i]))], DOMAIN t.lv)
    + SumOver([i \in DOMAIN t.dec |-> LnSplit(p, DepthOf(i)) + LnRule(rw, i, t.dec[i][1], t.dec[i][2])], DOMAIN t.dec)
LnQ(p, t, rw, m) ==
    IF m[1] = "grow"
    THEN LnRat(KindWeight(t, rw, "grow", p.pg, p.pp)) + LnRat(LeafWeight(t, rw)) + LnRule(rw, m[2], m[3], m[4])
    ELSE LnRat(KindWeight(t, rw, "prune", p.pg, p.pp)) - Ln(Cardinality(PrunableIn(t)))

AfterTree(t, m) == IF m[1] = "grow" THEN GrowTree(t, m[2], m[3], m[4]) ELSE PruneTree(t, m[2])
AfterRows(t, rw, m) ==
    IF m[1] = "grow"
    THEN (Left(m[2]) :> LeftRows(X, rw[m[2]], m[3], m[4])) @@ (Right(m[2]) :> RightRows(X, rw[m[2]], m[3], m[4])) @@ rw
    ELSE Without(rw, {Left(m[2]), Right(m[2])})
Reverse(t, m) == IF m[1] = "grow" THEN <<"prune", m[2], 0, 0>> ELSE <<"grow", m[2], t.dec[m[2]][1], t.dec[m[2]][2]>>

LnRatio(p, t, rw, yy, m) ==
    LET t1 == AfterTree(t, m) r1 == AfterRows(t, rw, m) IN
    LnPost(p, t1, r1, yy) - LnPost(p, t, rw, yy) + LnQ(p, t1, r1, Reverse(t, m)) - LnQ(p, t, rw, m)

\* probability (unit 10^-6) that one step makes move m
StepProb(p, t, rw, yy, m) ==
    LET w == Weight(t, rw, m, p.pg, p.pp) r == LnRatio(p, t, rw, yy, m) IN
    (ExpNeg(r) \div w[2]) * w[1] + ((ExpNeg(r) % w[2]) * w[1]) \div w[2]
===============================================================================
