-------------------------------- MODULE FixMath -------------------------------
(* Fixed point arithmetic (unit 10^-6) within TLC's 32 bit integers.               *)
EXTENDS Integers, Sequences, FixTables
U == 1000000
RECURSIVE LnScaled(_, _, _)
LnScaled(n, k, p2) ==     \* n = hi * 2^k + rem with 1024 <= hi < 2048
    IF n \div p2 < 2048
    THEN LET hi == n \div p2 rem == n % p2 d == LnTab[hi + 1] - LnTab[hi] IN
         k * LnTab[2] + LnTab[hi] + (IF p2 > 1000000 THEN ((rem \div 1000) * d) \div (p2 \div 1000) ELSE (rem * d) \div p2)
    ELSE LnScaled(n, k + 1, p2 * 2)
Ln(n) == IF n <= 2049 THEN LnTab[n] ELSE LnScaled(n, 0, 1)

\* exp(x) for x <= 0
ExpNeg(x) ==
    LET a == 0 - x i == a \div 5000 r == a % 5000 IN
    IF x >= 0 THEN U ELSE IF i >= 3600 THEN 0
    ELSE ExpTab[i + 1] - ((ExpTab[i + 1] - ExpTab[i + 2]) * (r \div 5)) \div 1000

RECURSIVE Digits(_, _, _, _)
Digits(rem, b, k, acc) == IF k = 0 THEN acc ELSE Digits((rem * 10) % b, b, k - 1, acc * 10 + ((rem * 10) \div b))
RECURSIVE FGcd(_, _)
FGcd(a, b) == IF b = 0 THEN a ELSE FGcd(b, a % b)
\* a / b in units of 10^-6, rounded down; a >= 0, 0 < b < 2 * 10^8 after reduction
FixDiv(a0, b0) == LET g == FGcd(a0, b0) a == a0 \div g b == b0 \div g IN Digits(a % b, b, 6, a \div b)
FixDivS(a, b) == IF a < 0 THEN 0 - FixDiv(0 - a, b) ELSE FixDiv(a, b)
\* a / b in units of 10^-k
DivTo(a0, b0, k) == LET g == FGcd(a0, b0) a == a0 \div g b == b0 \div g IN Digits(a % b, b, k, a \div b)

RECURSIVE SqrtIter(_, _)
SqrtIter(n, x) == LET z == (x + n \div x) \div 2 IN IF z >= x THEN x ELSE SqrtIter(n, z)
ISqrt(n) == IF n <= 0 THEN 0 ELSE SqrtIter(n, IF n < 46340 THEN n + 1 ELSE 46341)

\* Phi(z) for z in hundredths
Phi(z) == IF z >= 600 THEN U ELSE IF z <= 0 - 600 THEN 0 ELSE IF z >= 0 THEN PhiTab[z + 1] ELSE U - PhiTab[1 - z]

\* product of two numbers of unit 10^-6
MulFix(a0, b0) ==
    LET neg == (a0 < 0) # (b0 < 0)
        a == IF a0 < 0 THEN 0 - a0 ELSE a0
        b == IF b0 < 0 THEN 0 - b0 ELSE b0
        r == (a \div 1000) * (b \div 1000) + ((a \div 1000) * (b % 1000) + (a % 1000) * (b \div 1000)) \div 1000 + ((a % 1000) * (b % 1000)) \div 1000000
    IN IF neg THEN 0 - r ELSE r

ASSUME LnLaw == \A a \in {2, 3, 7, 30, 45, 1000, 2047} : \A b \in {1, 5, 64, 999, 2048, 40000} :
                   LET d == Ln(a * b) - Ln(a) - Ln(b) IN d <= 3 /\ d >= 0 - 3
ASSUME ExpLaw == \A a \in {1, 2, 3, 10, 77, 500} :  LET d == ExpNeg(0 - Ln(a)) - FixDiv(1, a) IN d <= 6 /\ d >= 0 - 6
===============================================================================
