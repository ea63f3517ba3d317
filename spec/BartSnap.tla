------------------------------- MODULE BartSnap -------------------------------
(* Storing copies of a tree that goes on changing, at the level of node objects and   *)
(* links (bartpy.tree.mutate, deep_copy_tree, bartpy.model.deep_copy_model): a grow    *)
(* or prune replaces node objects and re-links the parent; storing copies every node   *)
(* and maps the links into the copy.  Deep = FALSE leaves the links of the copy         *)
(* pointing at the live nodes, which is what the repository did before commit           *)
(* 00f2cf7; the invariants fail there.                                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxIds, MaxSnaps, Deep
VARIABLES heap,     \* node objects: id -> [k, l, r, c, v]
          live,     \* [root, nodes]
          sigma,    \* noise scale of the live model
          snaps     \* stored: [root, nodes, sigma, then]; then: what it showed when stored or last edited
svars == <<heap, live, sigma, snaps>>
Leaf(v) == [k |-> 0, l |-> 0, r |-> 0, c |-> 0, v |-> v]
RECURSIVE Abs(_, _)
Abs(h, i) == IF i \notin DOMAIN h THEN <<"dangling">>
             ELSE IF h[i].k = 0 THEN <<"L", h[i].v>> ELSE <<"D", h[i].c, Abs(h, h[i].l), Abs(h, h[i].r)>>
RECURSIVE Reach(_, _)
Reach(h, i) == IF i \notin DOMAIN h THEN {i} ELSE IF h[i].k = 0 THEN {i} ELSE {i} \cup Reach(h, h[i].l) \cup Reach(h, h[i].r)
SInit == heap = (1 :> Leaf(0)) /\ live = [root |-> 1, nodes |-> {1}] /\ sigma = 0 /\ snaps = << >>
Top == Cardinality(DOMAIN heap)

\* links of the tree's own node list are redirected from i to j
Relink(h, nodes, i, j) == [n \in DOMAIN h |-> IF n \in nodes THEN [h[n] EXCEPT !.l = IF @ = i THEN j ELSE @, !.r = IF @ = i THEN j ELSE @] ELSE h[n]]
GrowNode(i, c) ==
    /\ i \in live.nodes /\ heap[i].k = 0 /\ Top + 3 <= MaxIds
    /\ LET a == Top + 1 b == Top + 2 d == Top + 3
           ns == (live.nodes \ {i}) \cup {a, b, d}
           h1 == (a :> Leaf(0)) @@ (b :> Leaf(0)) @@ (d :> [k |-> 1, l |-> a, r |-> b, c |-> c, v |-> 0]) @@ heap
       IN  /\ heap' = Relink(h1, ns, i, d)
           /\ live' = [root |-> IF live.root = i THEN d ELSE live.root, nodes |-> ns]
    /\ UNCHANGED <<sigma, snaps>>
Prunable(h, ns) == {i \in ns : h[i].k = 1 /\ h[i].l \in DOMAIN h /\ h[i].r \in DOMAIN h /\ h[h[i].l].k = 0 /\ h[h[i].r].k = 0}
PruneNode(i) ==
    /\ i \in Prunable(heap, live.nodes) /\ Top + 1 <= MaxIds
    /\ LET d == Top + 1
           ns == (live.nodes \ {i, heap[i].l, heap[i].r}) \cup {d}
       IN  /\ heap' = Relink((d :> Leaf(0)) @@ heap, ns, i, d)
           /\ live' = [root |-> IF live.root = i THEN d ELSE live.root, nodes |-> ns]
    /\ UNCHANGED <<sigma, snaps>>
SetVal(i, x) ==
    /\ i \in live.nodes /\ heap[i].k = 0 /\ heap[i].v # x
    /\ heap' = [heap EXCEPT ![i].v = x]
    /\ UNCHANGED <<live, sigma, snaps>>
SetNoise(x) == sigma # x /\ sigma' = x /\ UNCHANGED <<heap, live, snaps>>
Ordered(S) == CHOOSE f \in [1..Cardinality(S) -> S] : \A a, b \in DOMAIN f : a < b => f[a] < f[b]
Store ==
    /\ Len(snaps) < MaxSnaps /\ Top + Cardinality(live.nodes) <= MaxIds
    /\ LET f == Ordered(live.nodes)
           new(i) == IF \E k \in DOMAIN f : f[k] = i THEN Top + (CHOOSE k \in DOMAIN f : f[k] = i) ELSE i
           lk(i) == IF i = 0 THEN 0 ELSE IF Deep THEN new(i) ELSE i
           copies == [j \in (Top + 1)..(Top + Len(f)) |-> LET n == heap[f[j - Top]] IN [n EXCEPT !.l = lk(@), !.r = lk(@)]]
           h1 == copies @@ heap
       IN  /\ heap' = h1
           /\ snaps' = Append(snaps, [root |-> new(live.root), nodes |-> DOMAIN copies, sigma |-> sigma, then |-> <<Abs(h1, new(live.root)), sigma>>])
    /\ UNCHANGED <<live, sigma>>
\* whatever is done to a stored sample
EditVal(s, i, x) ==
    /\ s \in 1..Len(snaps) /\ i \in snaps[s].nodes /\ heap[i].k = 0 /\ heap[i].v # x
    /\ heap' = [heap EXCEPT ![i].v = x]
    /\ snaps' = [snaps EXCEPT ![s].then = <<Abs(heap', snaps[s].root), snaps[s].sigma>>]
    /\ UNCHANGED <<live, sigma>>
EditPrune(s, i) ==
    /\ s \in 1..Len(snaps) /\ i \in Prunable(heap, snaps[s].nodes) /\ Top + 1 <= MaxIds
    /\ LET d == Top + 1
           ns == (snaps[s].nodes \ {i, heap[i].l, heap[i].r}) \cup {d}
           rt == IF snaps[s].root = i THEN d ELSE snaps[s].root
           h1 == Relink((d :> Leaf(0)) @@ heap, ns, i, d)
       IN  /\ heap' = h1
           /\ snaps' = [snaps EXCEPT ![s] = [root |-> rt, nodes |-> ns, sigma |-> @.sigma, then |-> <<Abs(h1, rt), @.sigma>>]]
    /\ UNCHANGED <<live, sigma>>

\* C10
Immutable == \A s \in 1..Len(snaps) : snaps[s].then = <<Abs(heap, snaps[s].root), snaps[s].sigma>>
Contained == \A s \in 1..Len(snaps) : Reach(heap, snaps[s].root) = snaps[s].nodes
Disjoint == /\ \A s \in 1..Len(snaps) : snaps[s].nodes \cap live.nodes = {}
            /\ \A s, u \in 1..Len(snaps) : s # u => snaps[s].nodes \cap snaps[u].nodes = {}
LiveSound == Reach(heap, live.root) = live.nodes
===============================================================================
