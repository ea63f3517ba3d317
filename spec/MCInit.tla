--------------------------------- MODULE MCInit -------------------------------
(* All small sklearn trees in two node numberings, on all rows of a 3 x 3 grid, and all   *)
(* sequences of them for models of several trees.                                            *)
EXTENDS BartInit, Json
CONSTANTS NTrees, Emit
Rule(v, c) == [v |-> v, c |-> c]
Rules == {Rule(v, c) : v \in 1..2, c \in 1..2}
L(x) == [k |-> "leaf", x |-> x]
\* arrays by hand, children numbered depth first or breadth first
Arr(l, r, v, c, x) == [left |-> l, right |-> r, var |-> v, cut |-> c, value |-> x]
One == {Arr(<<0>>, <<0>>, <<0>>, <<0>>, <<7>>)}
Two == {Arr(<<2, 0, 0>>, <<3, 0, 0>>, <<a.v, 0, 0>>, <<a.c, 0, 0>>, <<0, 5, 9>>) : a \in Rules}
\* a split, its left child split again: depth first 1(2(3,4),5), breadth first 1(2(4,5),3)
Three == {Arr(<<2, 3, 0, 0, 0>>, <<5, 4, 0, 0, 0>>, <<a.v, b.v, 0, 0, 0>>, <<a.c, b.c, 0, 0, 0>>, <<0, 0, 4, 6, 11>>) : a, b \in Rules}
         \cup {Arr(<<2, 4, 0, 0, 0>>, <<3, 5, 0, 0, 0>>, <<a.v, b.v, 0, 0, 0>>, <<a.c, b.c, 0, 0, 0>>, <<0, 0, 4, 6, 11>>) : a, b \in Rules}
         \cup {Arr(<<2, 0, 4, 0, 0>>, <<3, 0, 5, 0, 0>>, <<a.v, 0, b.v, 0, 0>>, <<a.c, 0, b.c, 0, 0>>, <<0, 4, 0, 6, 11>>) : a, b \in Rules}
\* both children split, children numbered right before left
Four == {Arr(<<3, 6, 4, 0, 0, 0, 0>>, <<2, 7, 5, 0, 0, 0, 0>>, <<a.v, b.v, d.v, 0, 0, 0, 0>>, <<a.c, b.c, d.c, 0, 0, 0, 0>>, <<0, 0, 0, 1, 2, 3, 4>>) : a, b, d \in Rules}
Arrays == One \cup Two \cup Three \cup (IF Emit THEN Four ELSE {})
Grid == <<<<1, 1>>, <<1, 2>>, <<2, 3>>, <<3, 1>>, <<3, 3>>, <<2, 2>>>>
MInit == Start(Grid, [r \in 1..Len(Grid) |-> 10 * r - 31], NTrees)
MNext == \E a \in Arrays : InitNext(a) /\ (Emit => PrintT("@T" \o ToJson([a |-> a, dec |-> {<<h, MapTree(a).dec[h]>> : h \in DOMAIN MapTree(a).dec},
                                               lv |-> {<<h, MapTree(a).lv[h]>> : h \in DOMAIN MapTree(a).lv}, pred |-> PredictAll(X, MapTree(a)), x |-> X])))
MSpec == MInit /\ [][MNext]_ivars
SameAsArrays == \A a \in Arrays : WellFormed(MapTree(a)) /\ \A r \in 1..Len(Grid) : PredictRow(Grid[r], MapTree(a)) = ArrPredict(a, Grid[r])
Consistent == \A k \in 1..Len(forest) : WellFormed(forest[k])
\* in turn: what the latest tree saw is what everything before it leaves, the trees after it still predicting nothing
RECURSIVE Before(_, _)
Before(k, row) == IF k = 0 THEN 0 ELSE PredictRow(row, forest[k]) + Before(k - 1, row)
InTurn == turn > 0 => seen = [r \in 1..Len(y) |-> y[r] - Before(turn - 1, X[r])]
===============================================================================
