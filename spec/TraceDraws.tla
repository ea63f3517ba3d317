------------------------------ MODULE TraceDraws ------------------------------
(* Leaf and noise draws of the real samplers for models whose state is built up      *)
(* move by move.  State: the trees (as row groups with values), target, noise.        *)
EXTENDS BartDraws, BartData, TraceLib
VARIABLES X, y, forest, noise
vars == <<X, y, forest, noise, lvars>>
P == Tr.p     \* k, nt, d, m (leaf prior variance m/d), g
TInit == LInit /\ X = Tr.X /\ y = Tr.y /\ forest = [k \in 1..Tr.nt |-> StumpTree(0)] /\ noise = <<1, 1>>

RECURSIVE RowsAtNode(_, _)
RowsAtNode(t, i) == IF i = 1 THEN RowsOf(X) ELSE
    LET q == RowsAtNode(t, i \div 2) c == t.dec[i \div 2] IN
    IF i % 2 = 0 THEN LeftRows(X, q, c[1], c[2]) ELSE RightRows(X, q, c[1], c[2])
RECURSIVE FitRow(_, _)
FitRow(r, k) == IF k = 0 THEN 0 ELSE PredictRow(X[r], forest[k]) + FitRow(r, k - 1)
RECURSIVE SSR(_)
SSR(r) == IF r = 0 THEN 0 ELSE LET e == Tr.Y[r] - FitRow(r, Len(forest)) IN e * e + SSR(r - 1)

Keep == UNCHANGED <<X, y, forest, noise>>
\* e = [k, h, z, x]: leaf h of tree k drawn with standard normal z (tenths), result x (10^-6)
LeafFails(e) ==
    LET t == forest[e.k] R == RowsAtNode(t, e.h) n == Cardinality(R) s == SumRows(y, R)
        v == noise[1] * (P.d \div noise[2])
        mu == MeanFix(v, P.m, P.d, P.g, n, s)
        sd == SdFix(v, P.m, P.d, n)
        want == mu + (e.z * sd) \div 10
    IN  Clause("C08.leaf", Near(e.x, want, 20 + AbsV(e.z)), <<"tree", e.k, "leaf", e.h, "rows", n, "sum", s, "z", e.z, "expected", want, "got", e.x>>)
Below(pr, n) == LET q == n \div 100 IN (q * (pr \div 100)) \div 100     \* expected count, pr in 10^-6
Fits(c, n, pr, slack) == LET x == Below(pr, n) d == AbsV(c - x) b == 5 * ISqrt(x) + 8 + slack IN d <= b
\* e.edges, e.below: number of the n draws below each edge (10^-6)
LeafDistFails(e) ==
    LET t == forest[e.k] R == RowsAtNode(t, e.h) n == Cardinality(R) s == SumRows(y, R)
        v == noise[1] * (P.d \div noise[2])
        mu == MeanFix(v, P.m, P.d, P.g, n, s)
        sd == SdFix(v, P.m, P.d, n)
        zof(q) == LET w == q - mu IN IF w >= 0 THEN (w * 100) \div sd ELSE 0 - (((0 - w) * 100) \div sd)
        ok(q, c) == IF AbsV(q - mu) > 8 * sd THEN TRUE ELSE
                    LET pr == Phi(zof(q)) IN Fits(IF pr > 500000 THEN e.n - c ELSE c, e.n, IF pr > 500000 THEN U - pr ELSE pr, e.n \div 200)
    IN  UNION {Clause("C08.leafdist", ok(e.edges[j], e.below[j]), <<"mean", mu, "sd", sd, "edge", e.edges[j], "below", e.below[j], "of", e.n>>) : j \in 1..Len(e.edges)}
\* noise precision draws: shape a2/2 integer, rate b + SSR/2 (units 1/g^2); edges of 1/sigma^2 in 10^-3
NoiseDistFails(e) ==
    LET n == Len(X)
        shape == (e.a2 + n) \div 2
        num == 2 * e.b * P.g * P.g + SSR(n)       \* rate = num / (2 g^2)
        xof(q) == MulFix(FixDiv(num, 2 * P.g * P.g), q)
        ok(q, c) == LET x == xof(q) IN IF x > 17000000 THEN TRUE ELSE
                    LET pr == TailOf(shape, x) IN Fits(IF pr > 500000 THEN e.n - c ELSE c, e.n, IF pr > 500000 THEN U - pr ELSE pr, e.n \div 500)
    IN  UNION {Clause("C08.noisedist", ok(e.edges[j], e.above[j]), <<"shape", shape, "rate", num, "/", 2 * P.g * P.g, "edge", e.edges[j], "above", e.above[j], "of", e.n>>) : j \in 1..Len(e.edges)}
        \cup Clause("C08.noiseset", e.same = 1, "the draw is not the model's noise scale afterwards")
        \cup Clause("C08.noisepositive", e.positive = 1, "a noise draw was not positive and finite")

TNext ==
    /\ MoreEvents
    /\ LET e == Ev IN
        CASE e.op = "grow" -> (forest' = [forest EXCEPT ![e.k] = GrowTree(forest[e.k], e.h, e.v, e.c)] /\ UNCHANGED <<X, y, noise>> /\ Advance({}))
          [] e.op = "value" -> (forest' = [forest EXCEPT ![e.k] = SetLeaf(forest[e.k], e.h, e.x)] /\ UNCHANGED <<X, y, noise>> /\ Advance({}))
          [] e.op = "target" -> (y' = e.y /\ UNCHANGED <<X, forest, noise>> /\ Advance({}))
          [] e.op = "noise" -> (noise' = e.q /\ UNCHANGED <<X, y, forest>> /\ Advance({}))
          [] e.op = "leaf" -> (Keep /\ Advance(LeafFails(e)))
          [] e.op = "leafdist" -> (Keep /\ Advance(LeafDistFails(e)))
          [] e.op = "noisedist" -> (Keep /\ Advance(NoiseDistFails(e)))
          [] e.op = "error" -> (Keep /\ Advance({<<"ANY.raise", e.what>>}))
TSpec == TInit /\ [][TNext]_vars
===============================================================================
