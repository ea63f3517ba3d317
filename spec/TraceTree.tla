------------------------------ MODULE TraceTree -------------------------------
(* Histories of a real bartpy tree (hand-made mutations, sampler steps, target    *)
(* updates, leaf values, refused mutations, proposals, stored copies) checked     *)
(* against BartTree, with whatever the driver chose to observe after each event.  *)
EXTENDS TreeObs
VARIABLES saved            \* trees stored by deep_copy_tree
vars == <<tvars, lvars, saved>>

TInit == LInit /\ TreeInit(Tr.X, Tr.y) /\ saved = << >>

(* ---------------------------------- events ------------------------------------ *)
OpFails(e) ==
    CASE e.op = "mutate" -> Clause("C02.applied", ApplicableIn(tree, e.m), e.m)
      [] e.op = "step" -> Clause("C02.applied", ApplyAll(<<tree, rows, TRUE>>, e.ms)[3], e.ms)
                          \cup UNION {Clause("C03.legal", LegalMutation(tree, rows, e.ms[k]), e.ms[k]) : k \in 1..Len(e.ms)}
      [] e.op = "propose" -> UNION {Clause("C03.legal", LegalMutation(tree, rows, e.ms[k]), e.ms[k]) : k \in 1..Len(e.ms)}
                          \cup UNION {LET m == e.ms[k] IN
                               IF m[1] # "grow" \/ ~LegalMutation(tree, rows, m) \/ Len(m) < 10 THEN {} ELSE
                               LET lr == LeftRows(X, rows[m[2]], m[3], m[4]) rr == RightRows(X, rows[m[2]], m[3], m[4]) IN
                               Clause("C04.proposed", <<m[7], m[8], m[9], m[10]>> = <<Cardinality(lr), SumRows(y, lr), Cardinality(rr), SumRows(y, rr)>>, m)
                               : k \in 1..Len(e.ms)}
                          \cup Clause("C03.none", (e.ms = << >>) => (e.empty = 1 \/ (PrunableIn(tree) = {} /\ \A i \in DOMAIN tree.lv : SplitVars(X, rows[i]) = {})), e.ms)
      [] e.op = "illegal" -> Clause("C02.refused", e.raised = 1, e.what)
      [] e.op = "copycheck" -> StructFails(saved[e.k], e.copy, "C10+C05.", "C10.")
                          \cup (IF Has(e, "pq") THEN LET x == PredictAll(Tr.Q[e.pq[1]], saved[e.k]) IN
                                   Clause("C05+C10.copypredict", e.pq[2] = x, <<"expected", x, "got", e.pq[2]>>) ELSE {})
      [] e.op = "error" -> {<<"ANY.raise", e.what>>}
      [] OTHER -> {}

TNext ==
    /\ MoreEvents
    /\ LET e == Ev
           mm == IF e.op = "mutate" THEN <<e.m>> ELSE IF e.op = "step" THEN e.ms ELSE << >>
           st == ApplyAll(<<tree, rows, TRUE>>, mm)
           t1 == IF e.op = "value" /\ e.i \in DOMAIN tree.lv THEN SetLeaf(tree, e.i, e.x) ELSE st[1]
           y1 == IF e.op = "update" THEN e.y ELSE y
       IN  /\ tree' = t1
           /\ rows' = st[2]
           /\ y' = y1
           /\ X' = X
           /\ saved' = IF e.op = "copy" THEN Append(saved, tree) ELSE saved
           /\ Advance(OpFails(e) \cup (IF Has(e, "obs") THEN ObsFails(t1, st[2], y1, e.obs) ELSE {}))
TSpec == TInit /\ [][TNext]_vars
===============================================================================
