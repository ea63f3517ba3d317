----------------------------- MODULE BartPropose ------------------------------
(* The default proposal distribution over grows and prunes of one tree            *)
(* (bartpy.samplers.unconstrainedtree.proposer), as exact rationals <<num, den>>.  *)
EXTENDS BartTree

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Rat(n, d) == LET g == Gcd(n, d) IN IF g = 0 THEN <<0, 1>> ELSE <<n \div g, d \div g>>
RMul(p, q) == LET a == Rat(p[1], q[2]) b == Rat(q[1], p[2]) IN Rat(a[1] * b[1], a[2] * b[2])
RAdd(p, q) == LET g == Gcd(p[2], q[2]) IN Rat(p[1] * (q[2] \div g) + q[1] * (p[2] \div g), (p[2] \div g) * q[2])
RECURSIVE RSum(_, _)
RSum(f, S) == IF S = {} THEN <<0, 1>> ELSE LET x == CHOOSE x \in S : TRUE IN RAdd(f[x], RSum(f, S \ {x}))

SplittableLeaves(t, rw) == {i \in DOMAIN t.lv : SplitVars(X, rw[i]) # {}}
GrowMoves(t, rw) == UNION {UNION {{<<"grow", i, v, c>> : c \in LegalCuts(X, rw[i], v)} : v \in SplitVars(X, rw[i])} : i \in SplittableLeaves(t, rw)}
PruneMoves(t) == {<<"prune", i, 0, 0>> : i \in PrunableIn(t)}
Moves(t, rw) == GrowMoves(t, rw) \cup PruneMoves(t)

(* pg, pp: configured weights of growing and pruning *)
KindWeight(t, rw, kind, pg, pp) ==
    LET cg == SplittableLeaves(t, rw) # {} cp == PrunableIn(t) # {} IN
    IF kind = "grow" THEN IF ~cg THEN <<0, 1>> ELSE IF ~cp THEN <<1, 1>> ELSE Rat(pg, pg + pp)
                     ELSE IF ~cp THEN <<0, 1>> ELSE IF ~cg THEN <<1, 1>> ELSE Rat(pp, pg + pp)
LeafWeight(t, rw) == Rat(1, Cardinality(SplittableLeaves(t, rw)))
VarWeight(rw, i) == Rat(1, Cardinality(SplitVars(X, rw[i])))
CutWeight(rw, i, v, c) ==
    LET S == rw[i] IN Rat(CountOf(X, S, v, c), Cardinality(S) - CountOf(X, S, v, MaxOf(ValsOf(X, S, v))))
Weight(t, rw, m, pg, pp) ==
    IF m[1] = "grow"
    THEN RMul(RMul(KindWeight(t, rw, "grow", pg, pp), LeafWeight(t, rw)), RMul(VarWeight(rw, m[2]), CutWeight(rw, m[2], m[3], m[4])))
    ELSE RMul(KindWeight(t, rw, "prune", pg, pp), Rat(1, Cardinality(PrunableIn(t))))

(* properties of the distribution *)
Normalised(pg, pp) ==
    LET M == Moves(tree, rows) IN
    M # {} => RSum([m \in M |-> Weight(tree, rows, m, pg, pp)], M) = <<1, 1>>
AllPositive(pg, pp) == \A m \in Moves(tree, rows) : Weight(tree, rows, m, pg, pp)[1] > 0
MovesLegal ==
    \A m \in Moves(tree, rows) :
        IF m[1] = "grow" THEN LeftRows(X, rows[m[2]], m[3], m[4]) # {} /\ RightRows(X, rows[m[2]], m[3], m[4]) # {}
                         ELSE Left(m[2]) \in DOMAIN tree.lv /\ Right(m[2]) \in DOMAIN tree.lv
\* every move can be undone by another move
Reversible ==
    \A m \in Moves(tree, rows) :
        IF m[1] = "grow"
        THEN m[2] \in PrunableIn(GrowTree(tree, m[2], m[3], m[4]))
        ELSE <<"grow", m[2], tree.dec[m[2]][1], tree.dec[m[2]][2]>>
                \in GrowMoves(PruneTree(tree, m[2]), Without(rows, {Left(m[2]), Right(m[2])}))
===============================================================================
