--------------------------------- MODULE MCMH ---------------------------------
(* Design check of the acceptance ratio on all trees of small data sets, and the   *)
(* source of expected ratios for every tree and move, replayed into bartpy.         *)
EXTENDS BartMH, Json
CONSTANTS MaxDec, Sets, Pars
VARIABLES hist, par
DataSets == <<
   << <<1, 1>>, <<2, 1>>, <<2, 2>>, <<3, 1>> >>,
   << <<1>>, <<2>>, <<3>>, <<4>>, <<5>> >>,
   << <<2, 1>>, <<1, 1>>, <<1, 1>> >>,
   << <<4, 1>>, <<3, 2>>, <<2, 2>>, <<1, 3>>, <<3, 1>> >>,
   << <<1, 1, 2>>, <<2, 1, 1>> >>,
   << <<1, 6>>, <<2, 5>>, <<3, 4>>, <<4, 3>>, <<4, 2>>, <<4, 1>> >> >>
\* k and n_trees give m/d = 1/(4 k^2 n_trees); sg/4 is the noise scale, v/d its square
Params == <<
   [an |-> 95, ad |-> 100, b10 |-> 20, pg |-> 50, pp |-> 50, v |-> 16, m |-> 1, d |-> 16, g |-> 4, k |-> 2, nt |-> 1, sg |-> 4],
   [an |-> 1, ad |-> 2, b10 |-> 10, pg |-> 30, pp |-> 70, v |-> 1, m |-> 1, d |-> 16, g |-> 4, k |-> 1, nt |-> 4, sg |-> 1],
   [an |-> 3, ad |-> 4, b10 |-> 0, pg |-> 90, pp |-> 10, v |-> 36, m |-> 2, d |-> 64, g |-> 4, k |-> 2, nt |-> 2, sg |-> 3],
   [an |-> 9, ad |-> 10, b10 |-> 15, pg |-> 60, pp |-> 40, v |-> 48, m |-> 4, d |-> 192, g |-> 4, k |-> 2, nt |-> 3, sg |-> 2],
   [an |-> 1, ad |-> 10, b10 |-> 30, pg |-> 20, pp |-> 80, v |-> 64, m |-> 4, d |-> 16, g |-> 4, k |-> 1, nt |-> 1, sg |-> 8] >>
MInit == \E s \in Sets, p \in Pars : LET x0 == DataSets[s] IN
            /\ TreeInit(x0, [r \in 1..Len(x0) |-> IF r % 2 = 0 THEN 2 ELSE r - 4])
            /\ hist = << >> /\ par = p
MNext == \E m \in Moves(tree, rows) :
            /\ IF m[1] = "grow" THEN Cardinality(DOMAIN tree.dec) < MaxDec /\ Grow(m[2], m[3], m[4]) ELSE Prune(m[2])
            /\ hist' = Append(hist, m)
            /\ UNCHANGED par
MSpec == MInit /\ [][MNext]_<<tvars, hist, par>>
MView == <<tvars, par>>
P == Params[par]
Moved == hist'[Len(hist')]
NearZero(a) == a <= 60 /\ a >= 0 - 60
\* a move and its reverse have opposite ratios
Antisymmetric == [][ NearZero(LnRatio(P, tree, rows, y, Moved) + LnRatio(P, tree', rows', y, Reverse(tree, Moved))) ]_<<tvars, hist, par>>
\* the sampler's kernel leaves the posterior invariant: flows between two trees are equal
DetailedBalance == [][ LET m == Moved
                           r == LnRatio(P, tree, rows, y, m)
                           fwd == LnPost(P, tree, rows, y) + LnQ(P, tree, rows, m) + (IF r < 0 THEN r ELSE 0)
                           bwd == LnPost(P, tree', rows', y) + LnQ(P, tree', rows', Reverse(tree, m)) + (IF r > 0 THEN 0 - r ELSE 0)
                       IN NearZero(fwd - bwd) ]_<<tvars, hist, par>>
Emit == PrintT("@T" \o ToJson([x |-> X, y |-> y, h |-> hist', p |-> P, r |-> LnRatio(P, tree, rows, y, Moved)]))
===============================================================================
