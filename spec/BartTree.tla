------------------------------- MODULE BartTree -------------------------------
(* One decision tree under any history of grows, prunes, target updates and leaf *)
(* value changes (bartpy.tree, bartpy.node, bartpy.split, bartpy.data).           *)
EXTENDS BartData

VARIABLES X,      \* rank coded covariate matrix (fixed along a behaviour)
          y,      \* current target of the tree, one integer per row
          tree,   \* [dec, lv], see BartData
          rows    \* the rows each node holds, kept incrementally as the code keeps masks

tvars == <<X, y, tree, rows>>

TreeInit(x0, y0) ==
    /\ X = x0
    /\ y = y0
    /\ tree = StumpTree(0)
    /\ rows = (1 :> RowsOf(x0))

(* bartpy.tree.mutate with a grow: i is a leaf, split on column v at c.           *)
CanGrow(i, v) == i \in DOMAIN tree.lv /\ v \in ColsOf(X)
Grow(i, v, c) ==
    /\ CanGrow(i, v)
    /\ tree' = GrowTree(tree, i, v, c)
    /\ rows' = (Left(i) :> LeftRows(X, rows[i], v, c)) @@ (Right(i) :> RightRows(X, rows[i], v, c)) @@ rows
    /\ UNCHANGED <<X, y>>

(* ... with a prune: i is a decision node whose two children are leaves.          *)
CanPrune(i) == i \in PrunableIn(tree)
Prune(i) ==
    /\ CanPrune(i)
    /\ tree' = PruneTree(tree, i)
    /\ rows' = Without(rows, {Left(i), Right(i)})
    /\ UNCHANGED <<X, y>>

UpdateY(y1) ==
    /\ Len(y1) = Len(X)
    /\ y' = y1
    /\ UNCHANGED <<X, tree, rows>>

SetValue(i, x) ==
    /\ i \in DOMAIN tree.lv
    /\ tree' = SetLeaf(tree, i, x)
    /\ UNCHANGED <<X, y, rows>>

(* ------------------------------- properties ---------------------------------- *)
Leaves == DOMAIN tree.lv
Decisions == DOMAIN tree.dec

\* C01
Partition ==
    /\ UNION {rows[i] : i \in Leaves} = RowsOf(X)
    /\ \A i, j \in Leaves : i # j => rows[i] \cap rows[j] = {}
RowsMatchPath == \A i \in NodesOf(tree) : rows[i] = PathRows(X, tree, i)
ChildrenSplit ==
    \A i \in Decisions :
        /\ rows[Left(i)] = LeftRows(X, rows[i], tree.dec[i][1], tree.dec[i][2])
        /\ rows[Right(i)] = RightRows(X, rows[i], tree.dec[i][1], tree.dec[i][2])
\* C02
Shape == WellFormed(tree) /\ DOMAIN rows = NodesOf(tree)
\* C04: the way the code derives the right child's count and sum from parent and left child is exact
CarriedSums ==
    \A i \in Decisions :
        /\ Cardinality(rows[Right(i)]) = Cardinality(rows[i]) - Cardinality(rows[Left(i)])
        /\ SumRows(y, rows[Right(i)]) = SumRows(y, rows[i]) - SumRows(y, rows[Left(i)])
\* C04: what children may inherit from their parent without asking again
CacheInheritance ==
    \A i \in Decisions : \A ch \in {Left(i), Right(i)} : \A v \in ColsOf(X) :
        /\ v \notin SplitVars(X, rows[i]) => v \notin SplitVars(X, rows[ch])
        /\ IsUnique(X, rows[i], v) => IsUnique(X, rows[ch], v)
\* C03: a legal cut never leaves a side empty
LegalCutsSplit ==
    \A i \in Leaves : \A v \in SplitVars(X, rows[i]) :
        /\ LegalCuts(X, rows[i], v) # {}
        /\ \A c \in LegalCuts(X, rows[i], v) : LeftRows(X, rows[i], v, c) # {} /\ RightRows(X, rows[i], v, c) # {}
\* C05: the interval a path leaves for a column routes exactly like the path
Interval(i, v) ==
    LET up == {j \in Decisions : \E k \in 0..30 : (i \div (2^k)) = j /\ j # i}
        anc == {j \in up : tree.dec[j][1] = v}
        los == {tree.dec[j][2] : j \in {k \in anc : \E m \in 0..30 : (i \div (2^m)) = Right(k)}}
        his == {tree.dec[j][2] : j \in {k \in anc : \E m \in 0..30 : (i \div (2^m)) = Left(k)}}
    IN <<los, his>>
InInterval(row, i) ==
    \A v \in ColsOf(X) : LET b == Interval(i, v) IN
        (\A l \in b[1] : row[v] > l) /\ (\A h \in b[2] : row[v] <= h)
RoutingUnique == \A r \in RowsOf(X) : \A i \in Leaves : (Route(X[r], tree) = i) <=> InInterval(X[r], i)
===============================================================================
