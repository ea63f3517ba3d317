-------------------------------- MODULE BartInit ------------------------------
(* Initialising trees from fitted sklearn trees (bartpy.initializers).  An sklearn tree  *)
(* is its arrays a = [left, right, var, cut, value]: node j has children left[j] and      *)
(* right[j] (0: it is a leaf; the root is node 1), sends a row left when the value of      *)
(* column var[j] is at most cut[j], and a leaf predicts value[j].                           *)
EXTENDS BartData
VARIABLES X, y,        \* covariates (ranks) and normalised target
          forest,      \* the model's trees
          turn,        \* how many of them have been initialised
          seen         \* the target the latest initialised tree was fitted to
ivars == <<X, y, forest, turn, seen>>

IsLeaf(a, j) == a.left[j] = 0
RECURSIVE ArrRoute(_, _, _)
ArrRoute(a, row, j) == IF IsLeaf(a, j) THEN j
                       ELSE ArrRoute(a, row, IF row[a.var[j]] <= a.cut[j] THEN a.left[j] ELSE a.right[j])
ArrPredict(a, row) == a.value[ArrRoute(a, row, 1)]
RECURSIVE DecOf(_, _, _), LvOf(_, _, _)
DecOf(a, j, h) == IF IsLeaf(a, j) THEN << >>
                  ELSE (h :> <<a.var[j], a.cut[j]>>) @@ DecOf(a, a.left[j], Left(h)) @@ DecOf(a, a.right[j], Right(h))
LvOf(a, j, h) == IF IsLeaf(a, j) THEN (h :> a.value[j])
                 ELSE LvOf(a, a.left[j], Left(h)) @@ LvOf(a, a.right[j], Right(h))
MapTree(a) == [dec |-> DecOf(a, 1, 1), lv |-> LvOf(a, 1, 1)]

RECURSIVE OthersSum(_, _, _, _)
OthersSum(f, k, row, m) == IF m = 0 THEN 0 ELSE (IF m = k THEN 0 ELSE PredictRow(row, f[m])) + OthersSum(f, k, row, m - 1)
\* what tree k has to explain, given all other trees as they are
TargetOf(f, k) == [r \in 1..Len(y) |-> y[r] - OthersSum(f, k, X[r], Len(f))]
ModelPrediction(f) == [r \in 1..Len(X) |-> OthersSum(f, 0, X[r], Len(f))]

Start(x0, y0, m) == /\ X = x0 /\ y = y0 /\ forest = [k \in 1..m |-> StumpTree(0)] /\ turn = 0 /\ seen = << >>
\* the next tree is fitted to the residual of all others and takes over its structure
InitNext(a) == /\ turn < Len(forest)
               /\ seen' = TargetOf(forest, turn + 1)
               /\ forest' = [forest EXCEPT ![turn + 1] = MapTree(a)]
               /\ turn' = turn + 1
               /\ UNCHANGED <<X, y>>
===============================================================================
