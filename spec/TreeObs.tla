------------------------------- MODULE TreeObs --------------------------------
(* Judging what was observed of one real tree against the specification's tree.   *)
EXTENDS BartTree, TraceLib

(* ------------------------- mutations and their legality ----------------------- *)
(* a mutation is <<kind, node, column, cut, v1, v2>>; v1, v2 are the values of the   *)
(* leaves it creates                                                                  *)
ApplicableIn(t, m) == IF m[1] = "grow" THEN m[2] \in DOMAIN t.lv /\ m[3] \in ColsOf(X) ELSE m[2] \in PrunableIn(t)
ApplyTree(t, m) ==
    IF m[1] = "grow"
    THEN LET g == GrowTree(t, m[2], m[3], m[4]) IN SetLeaf(SetLeaf(g, Left(m[2]), m[5]), Right(m[2]), m[6])
    ELSE SetLeaf(PruneTree(t, m[2]), m[2], m[5])
ApplyRows(rw, m) ==
    IF m[1] = "grow"
    THEN (Left(m[2]) :> LeftRows(X, rw[m[2]], m[3], m[4])) @@ (Right(m[2]) :> RightRows(X, rw[m[2]], m[3], m[4])) @@ rw
    ELSE Without(rw, {Left(m[2]), Right(m[2])})
RECURSIVE ApplyAll(_, _)
ApplyAll(st, ms) ==    \* st = <<tree, rows, all applicable so far>>
    IF ms = << >> THEN st
    ELSE LET m == Head(ms) IN
         IF ApplicableIn(st[1], m) THEN ApplyAll(<<ApplyTree(st[1], m), ApplyRows(st[2], m), st[3]>>, Tail(ms))
                                   ELSE ApplyAll(<<st[1], st[2], FALSE>>, Tail(ms))
LegalMutation(t, rw, m) ==
    IF m[1] = "grow"
    THEN /\ m[2] \in DOMAIN t.lv
         /\ m[3] \in SplitVars(X, rw[m[2]])
         /\ m[4] \in LegalCuts(X, rw[m[2]], m[3])
    ELSE m[2] \in PrunableIn(t)

(* ------------------------------ observations ---------------------------------- *)
(* o.g[i] = <<kind, left, right, depth, column, cut, value, pcol, pcut, pop>>      *)
(* kind 0 leaf, 1 decision; left/right indices into o.g; pcol.. = last rule on path *)
RECURSIVE HeapMap(_, _, _, _)
HeapMap(t, g, h, i) ==
    IF i < 1 \/ i > Len(g) THEN (h :> 0)
    ELSE IF h \in DOMAIN t.dec
         THEN (h :> i) @@ HeapMap(t, g, Left(h), g[i][2]) @@ HeapMap(t, g, Right(h), g[i][3])
         ELSE (h :> i)
RootsIn(g) == {i \in 1..Len(g) : \A j \in 1..Len(g) : g[j][2] # i /\ g[j][3] # i}
Pid(p, s) == p \o s

StructFails(t, o, p1, p2) ==
    LET g == o.g
        roots == RootsIn(g)
        hm == IF Cardinality(roots) = 1 THEN HeapMap(t, g, 1, CHOOSE i \in roots : TRUE) ELSE (1 :> 0)
        ok == /\ DOMAIN hm = NodesOf(t)
              /\ \A h \in DOMAIN hm : hm[h] # 0
              /\ Cardinality({hm[h] : h \in DOMAIN hm}) = Cardinality(DOMAIN hm)
              /\ Len(g) = Cardinality(NodesOf(t))
    IN  Clause(Pid(p2, "root"), Cardinality(roots) = 1, roots)
        \cup Clause(Pid(p2, "nodes"), ok, <<"expected", NodesOf(t), "got", hm, "listed", Len(g)>>)
        \cup (IF ~ok THEN {} ELSE
               Clause(Pid(p2, "kind"), \A h \in DOMAIN hm : g[hm[h]][1] = (IF h \in DOMAIN t.dec THEN 1 ELSE 0), hm)
          \cup Clause(Pid(p2, "leaflinks"), \A h \in DOMAIN t.lv : g[hm[h]][2] = 0 /\ g[hm[h]][3] = 0, hm)
          \cup Clause(Pid(p2, "depth"), \A h \in DOMAIN hm : g[hm[h]][4] = DepthOf(h), [h \in DOMAIN hm |-> g[hm[h]][4]])
          \cup Clause(Pid(p1, "rule"), \A h \in DOMAIN t.dec : <<g[hm[h]][5], g[hm[h]][6]>> = t.dec[h],
                      <<"expected", t.dec, "got", [h \in DOMAIN t.dec |-> <<g[hm[h]][5], g[hm[h]][6]>>]>>)
          \cup Clause(Pid(p1, "side"), \A h \in DOMAIN hm : h = 1 \/
                          <<g[hm[h]][8], g[hm[h]][9], g[hm[h]][10]>> = <<t.dec[ParentOf(h)][1], t.dec[ParentOf(h)][2], h % 2>>,
                      [h \in DOMAIN hm |-> <<g[hm[h]][8], g[hm[h]][9], g[hm[h]][10]>>])
          \cup Clause(Pid(p1, "value"), \A h \in DOMAIN t.lv : g[hm[h]][7] = t.lv[h],
                      <<"expected", t.lv, "got", [h \in DOMAIN t.lv |-> g[hm[h]][7]]>>))

HeapOf(t, o) ==      \* index -> heap number, when the structure matches
    LET hm == HeapMap(t, o.g, 1, CHOOSE i \in RootsIn(o.g) : TRUE)
    IN [i \in {hm[h] : h \in DOMAIN hm} |-> CHOOSE h \in DOMAIN hm : hm[h] = i]

ListFails(o) ==
    LET g == o.g
        idx == 1..Len(g)
        leafs == {i \in idx : g[i][1] = 0}
        decs == {i \in idx : g[i][1] = 1}
        prs == {i \in decs : g[i][2] \in leafs /\ g[i][3] \in leafs}
    IN  Clause("C02.leaflist", ToSetOf(o.lf) = leafs /\ NoRepeats(o.lf), o.lf)
        \cup Clause("C02.declist", ToSetOf(o.dn) = decs /\ NoRepeats(o.dn), o.dn)
        \cup Clause("C02.prunelist", ToSetOf(o.pr) = prs /\ NoRepeats(o.pr), <<o.pr, prs>>)

NodeFails(t, rw, yy, o) ==
    LET st == StructFails(t, o, "C01+C02.", "C02.")
        bad == \E f \in st : f[1] \in {"C02.root", "C02.nodes"}
        hof == HeapOf(t, o)
        idx == 1..Len(o.g)
        R(i) == IF Has(o, "rows") THEN ToSetOf(o.rows[i]) ELSE rw[hof[i]]
        known == Has(o, "rows") \/ ~bad
        leafs == {i \in idx : o.g[i][1] = 0}
        per(name, S, cond(_), info(_)) == UNION {Clause(name, cond(i), <<"node", IF bad THEN 0 - i ELSE hof[i], info(i)>>) : i \in S}
    IN  st
        \cup (IF ~Has(o, "lf") THEN {} ELSE ListFails(o))
        \cup (IF Has(o, "sp") /\ known
              THEN Clause("C02+C04.splitlist", ToSetOf(o.sp) = {i \in leafs : SplitVars(X, R(i)) # {}} /\ NoRepeats(o.sp), o.sp) ELSE {})
        \cup (IF ~Has(o, "rows") THEN {} ELSE
                Clause("C01.partition", /\ UNION {R(i) : i \in leafs} = RowsOf(X)
                                        /\ \A i, j \in leafs : i < j => R(i) \cap R(j) = {}, "leaves do not partition the rows")
           \cup Clause("C01.rowlist", \A i \in idx : NoRepeats(o.rows[i]), "row listed twice")
           \cup (IF bad THEN {} ELSE per("C01.rows", idx, LAMBDA i : R(i) = rw[hof[i]], LAMBDA i : <<"expected", rw[hof[i]], "got", R(i)>>)))
        \cup (IF Has(o, "rows2") /\ ~bad   \* the rows according to the node's path condition
              THEN per("C01+C05.pathrows", idx, LAMBDA i : ToSetOf(o.rows2[i]) = rw[hof[i]], LAMBDA i : <<rw[hof[i]], o.rows2[i]>>) ELSE {})
        \cup (IF Has(o, "col") /\ ~bad     \* get_column
              THEN UNION {Clause("C04.column", Len(o.col[k][3]) = Cardinality(rw[hof[o.col[k][1]]]) /\
                     \A u \in ToSetOf(o.col[k][3]) \cup ValsOf(X, rw[hof[o.col[k][1]]], o.col[k][2]) :
                        Cardinality({j \in 1..Len(o.col[k][3]) : o.col[k][3][j] = u}) = CountOf(X, rw[hof[o.col[k][1]]], o.col[k][2], u), o.col[k]) : k \in 1..Len(o.col)} ELSE {})
        \cup (IF Has(o, "n") /\ known THEN per("C04.count", idx, LAMBDA i : o.n[i] = Cardinality(R(i)), LAMBDA i : <<"expected", Cardinality(R(i)), "got", o.n[i]>>) ELSE {})
        \cup (IF Has(o, "s") /\ known THEN per("C04.sum", idx, LAMBDA i : o.s[i] = SumRows(yy, R(i)), LAMBDA i : <<"expected", SumRows(yy, R(i)), "got", o.s[i]>>) ELSE {})
        \cup (IF Has(o, "sv") /\ known THEN per("C04.splittable", idx, LAMBDA i : ToSetOf(o.sv[i]) = SplitVars(X, R(i)) /\ NoRepeats(o.sv[i]),
                                       LAMBDA i : <<"expected", SplitVars(X, R(i)), "got", o.sv[i]>>) ELSE {})
        \cup (IF Has(o, "mx") /\ known THEN per("C04.max", {i \in idx : R(i) # {}}, LAMBDA i : \A v \in ColsOf(X) : o.mx[i][v] = MaxOf(ValsOf(X, R(i), v)),
                                       LAMBDA i : o.mx[i]) ELSE {})
        \cup (IF Has(o, "uq") /\ known THEN per("C04.unique", {i \in idx : R(i) # {}}, LAMBDA i : \A v \in ColsOf(X) : (o.uq[i][v] = 1) = IsUnique(X, R(i), v),
                                       LAMBDA i : o.uq[i]) ELSE {})
        \cup (IF Has(o, "pp") /\ known   \* <<node, column, value, proportion * 10^6>>
              THEN UNION {Clause("C04.proportion",
                     LET q == o.pp[k] IN Near(q[4], (1000000 * CountOf(X, R(q[1]), q[2], q[3])) \div Cardinality(R(q[1])), 2),
                     o.pp[k]) : k \in {k \in 1..Len(o.pp) : R(o.pp[k][1]) # {}}} ELSE {})
        \cup (IF Has(o, "yv")            \* the whole target every node sees
              THEN per("C04.target", idx, LAMBDA i : o.yv[i] = yy, LAMBDA i : o.yv[i]) ELSE {})

InSample(t, rw, n) == [r \in 1..n |-> t.lv[CHOOSE i \in DOMAIN t.lv : r \in rw[i]]]
PredFails(t, rw, o) ==
    (IF Has(o, "pin") THEN LET e == InSample(t, rw, Len(X)) IN Clause("C05.insample", o.pin = e, <<"expected", e, "got", o.pin>>) ELSE {})
    \cup (IF Has(o, "pq") THEN LET e == PredictAll(Tr.Q[o.pq[1]], t) IN Clause("C05.outofsample", o.pq[2] = e, <<"expected", e, "got", o.pq[2]>>) ELSE {})

ObsFails(t, rw, yy, o) ==
    (IF Has(o, "g") THEN NodeFails(t, rw, yy, o) ELSE {}) \cup PredFails(t, rw, o)

===============================================================================
