-------------------------------- MODULE MCTree --------------------------------
(* Exhaustive instance of BartTree on small data sets.  With EMIT=1 every         *)
(* transition is printed with the history that leads to it, for replay into the  *)
(* implementation; hist is hidden by the VIEW, so each state has one history.     *)
EXTENDS BartTree, Json, IOUtils
CONSTANTS MaxDec, MaxHist, NSets, UseY, UseVal
VARIABLE hist

DataSets == <<
   << <<1, 1>>, <<2, 1>>, <<2, 2>>, <<3, 1>> >>,      \* ties, a column that differs in one row
   << <<1, 2>>, <<1, 1>>, <<1, 3>> >>,                 \* a constant column
   << <<2, 1>>, <<1, 1>>, <<1, 1>> >>,                 \* only the first row differs; duplicated rows
   << <<1>>, <<2>>, <<3>>, <<4>>, <<5>> >>,            \* all distinct
   << <<1, 1, 2>>, <<2, 1, 1>> >>,                     \* two rows
   << <<4, 1>>, <<3, 2>>, <<2, 2>>, <<1, 3>>, <<3, 1>> >> >>
Targets(n) == { [r \in 1..n |-> r * r - 2 * n], [r \in 1..n |-> IF r % 2 = 0 THEN 5 ELSE 0 - r] }
Cuts(x, v) == {c - 1 : c \in {x[r][v] : r \in RowsOf(x)}} \cup {x[r][v] : r \in RowsOf(x)}

MCInit ==
    /\ \E d \in 1..NSets : LET x0 == DataSets[d] IN \E y0 \in Targets(Len(x0)) : TreeInit(x0, y0) /\ hist = << <<"init", y0>> >>

NextGrow == \E i \in DOMAIN tree.lv, v \in ColsOf(X) : \E c \in Cuts(X, v) :
                /\ Cardinality(DOMAIN tree.dec) < MaxDec
                /\ Grow(i, v, c)
                /\ hist' = Append(hist, <<"grow", i, v, c>>)
NextPrune == \E i \in DOMAIN tree.dec :
                /\ Prune(i)
                /\ hist' = Append(hist, <<"prune", i>>)
NextUpdate == /\ UseY
              /\ \E y1 \in Targets(Len(X)) \ {y} : UpdateY(y1) /\ hist' = Append(hist, <<"update", y1>>)
NextValue == /\ UseVal
             /\ \E i \in DOMAIN tree.lv : tree.lv[i] = 0 /\ SetValue(i, i) /\ hist' = Append(hist, <<"value", i, i>>)
MCNext == Len(hist) <= MaxHist /\ (NextGrow \/ NextPrune \/ NextUpdate \/ NextValue)
MCSpec == MCInit /\ [][MCNext]_<<tvars, hist>>
MCView == tvars

GrowPruneInverse ==
    [][ \A i \in DOMAIN tree.lv :
          (Left(i) \in DOMAIN tree'.lv /\ i \in DOMAIN tree'.dec) =>
             PruneTree(tree', i) = SetLeaf(tree, i, 0) ]_<<tvars, hist>>
PruneGivesBack ==
    [][ \A i \in DOMAIN tree.dec :
          (i \in DOMAIN tree'.lv) => rows'[i] = rows[Left(i)] \cup rows[Right(i)] ]_<<tvars, hist>>

\* what the implementation must show after the step
NodeView(i) == [i |-> i, leaf |-> i \in DOMAIN tree'.lv, rows |-> rows'[i],
                n |-> Cardinality(rows'[i]), s |-> SumRows(y', rows'[i]),
                sv |-> SplitVars(X, rows'[i]),
                v |-> IF i \in DOMAIN tree'.lv THEN tree'.lv[i] ELSE 0,
                r |-> IF i \in DOMAIN tree'.dec THEN tree'.dec[i] ELSE <<0, 0>>,
                pr |-> i \in PrunableIn(tree')]
Emit == "@T" \o ToJson([x |-> X, h |-> hist', nodes |-> {NodeView(i) : i \in NodesOf(tree')},
                         pred |-> PredictAll(X, tree')])
EmitTransitions == PrintT(Emit)
===============================================================================
