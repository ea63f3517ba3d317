------------------------------- MODULE BartData -------------------------------
(* Training rows, split rules and the binary tree arithmetic shared by every     *)
(* module.  A covariate matrix X is a sequence of rows, a row a sequence of      *)
(* integers: columns are rank coded, which preserves exactly the comparisons     *)
(* <= and > the code makes.  Tree nodes are named by heap numbers: the root is   *)
(* 1, the left child of i is 2i, the right child 2i+1.                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Left(i) == 2 * i
Right(i) == 2 * i + 1
ParentOf(i) == i \div 2

RECURSIVE DepthOf(_)
DepthOf(i) == IF i <= 1 THEN 0 ELSE 1 + DepthOf(i \div 2)

RowsOf(X) == 1..Len(X)
ColsOf(X) == IF Len(X) = 0 THEN {} ELSE 1..Len(X[1])

MaxOf(S) == CHOOSE m \in S : \A x \in S : x <= m
MinOf(S) == CHOOSE m \in S : \A x \in S : x >= m

RECURSIVE SumSeq(_, _)
SumSeq(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumSeq(f, n - 1)

RECURSIVE SumSet(_, _)
SumSet(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumSet(f, S \ {x})

(* sums over rows are taken in index order, so that they cost one pass *)
RECURSIVE SumRowsTo(_, _, _)
SumRowsTo(f, S, n) == IF n = 0 THEN 0 ELSE (IF n \in S THEN f[n] ELSE 0) + SumRowsTo(f, S, n - 1)
SumRows(f, S) == SumRowsTo(f, S, Len(f))

(* What a set of rows looks like in column v *)
ValsOf(X, S, v) == {X[r][v] : r \in S}
SplitVars(X, S) == {v \in ColsOf(X) : Cardinality(ValsOf(X, S, v)) >= 2}
LegalCuts(X, S, v) == IF S = {} THEN {} ELSE ValsOf(X, S, v) \ {MaxOf(ValsOf(X, S, v))}
CountOf(X, S, v, c) == Cardinality({r \in S : X[r][v] = c})
IsUnique(X, S, v) == Cardinality(ValsOf(X, S, v)) = Cardinality(S)

GoesLeft(row, v, c) == row[v] <= c
LeftRows(X, S, v, c) == {r \in S : X[r][v] <= c}
RightRows(X, S, v, c) == {r \in S : X[r][v] > c}

Without(f, S) == [x \in DOMAIN f \ S |-> f[x]]

(* ----- trees: t.dec maps decision nodes to their rule, t.lv leaves to values --- *)
NodesOf(t) == DOMAIN t.dec \cup DOMAIN t.lv
StumpTree(v0) == [dec |-> << >>, lv |-> (1 :> v0)]

PrunableIn(t) == {i \in DOMAIN t.dec : Left(i) \in DOMAIN t.lv /\ Right(i) \in DOMAIN t.lv}

GrowTree(t, i, v, c) ==
    [dec |-> (i :> <<v, c>>) @@ t.dec,
     lv  |-> (Left(i) :> 0) @@ (Right(i) :> 0) @@ Without(t.lv, {i})]
PruneTree(t, i) ==
    [dec |-> Without(t.dec, {i}),
     lv  |-> (i :> 0) @@ Without(t.lv, {Left(i), Right(i)})]
SetLeaf(t, i, x) == [t EXCEPT !.lv[i] = x]

(* rows by path: the rows that satisfy every rule on the way from the root to i *)
RECURSIVE OnPath(_, _, _)
OnPath(row, t, i) ==
    IF i <= 1 THEN TRUE
    ELSE LET p == ParentOf(i) IN
         /\ OnPath(row, t, p)
         /\ IF i = Left(p) THEN row[t.dec[p][1]] <= t.dec[p][2]
                           ELSE row[t.dec[p][1]] > t.dec[p][2]
PathRows(X, t, i) == {r \in RowsOf(X) : OnPath(X[r], t, i)}

RECURSIVE RouteFrom(_, _, _)
RouteFrom(row, t, i) ==
    IF i \in DOMAIN t.lv THEN i
    ELSE RouteFrom(row, t, IF row[t.dec[i][1]] <= t.dec[i][2] THEN Left(i) ELSE Right(i))
Route(row, t) == RouteFrom(row, t, 1)
PredictRow(row, t) == t.lv[Route(row, t)]
PredictAll(Q, t) == [r \in 1..Len(Q) |-> PredictRow(Q[r], t)]

WellFormed(t) ==
    /\ DOMAIN t.dec \cap DOMAIN t.lv = {}
    /\ 1 \in NodesOf(t)
    /\ \A i \in NodesOf(t) : i = 1 \/ ParentOf(i) \in DOMAIN t.dec
    /\ \A i \in DOMAIN t.dec : Left(i) \in NodesOf(t) /\ Right(i) \in NodesOf(t)
===============================================================================
