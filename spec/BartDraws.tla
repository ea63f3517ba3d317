------------------------------- MODULE BartDraws ------------------------------
(* Full conditional distributions of leaf values and noise                          *)
(* (bartpy.samplers.leafnode, bartpy.samplers.sigma, Model.sigma_m).                  *)
EXTENDS FixMath, FiniteSets, TLC

(* Leaf with n rows summing to s, noise variance V, prior variance M:                *)
(*   mean  s * M / (V + n M)       variance  V M / (V + n M),      M = 1/(4 k^2 T)     *)
\* exact, with V = v/d and M = m/d (targets in units of 1/g): numerators and denominators
MeanQ(v, m, d, g, n, s) == <<s * m, g * (v + n * m)>>
VarQ(v, m, d, n) == <<v * m, d * (v + n * m)>>
MeanFix(v, m, d, g, n, s) == LET q == MeanQ(v, m, d, g, n, s) IN FixDivS(q[1], q[2])
SdFix(v, m, d, n) == LET q == VarQ(v, m, d, n) IN ExpNeg((Ln(q[1]) - Ln(q[2])) \div 2)      \* below one

\* the same for a noise scale sg in 10^-6 as recorded; kk = k, T trees; s in 10^-6
Evaluable(sg, kk, T, n) == sg > 100 /\ sg <= 1400000 /\ kk * kk * T <= 80 /\ n > 0 /\ n <= 60
MeanOf(sg, kk, T, n, s) == MulFix(s, FixDiv(250000, MulFix(sg, sg) * kk * kk * T + 250000 * n))
SdOf(sg, kk, T, n) ==   \* sqrt(V * 250000/(V kk^2 T + 250000 n)), V in units of one
    ExpNeg((2 * (Ln(sg) - Ln(U)) + Ln(250000) - Ln(MulFix(sg, sg) * kk * kk * T + 250000 * n)) \div 2)

(* Noise precision 1/sigma^2 ~ Gamma(shape, rate): P(1/sigma^2 > t) for an integer     *)
(* shape is the probability of fewer than shape Poisson events of mean x = rate * t    *)
RECURSIVE LnFact(_)
LnFact(j) == IF j <= 1 THEN 0 ELSE Ln(j) + LnFact(j - 1)
RECURSIVE PoissonBelow(_, _)
PoissonBelow(x, k) ==    \* x in 10^-6, number of events < k
    IF k = 0 THEN 0
    ELSE PoissonBelow(x, k - 1) + ExpNeg((k - 1) * (Ln(x) - Ln(U)) - x - LnFact(k - 1))
TailOf(shape, x) == IF x <= 0 THEN U ELSE PoissonBelow(x, shape)
===============================================================================
