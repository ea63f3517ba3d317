------------------------------ MODULE TraceGibbs ------------------------------
(* Recorded Gibbs sampling of real models against BartGibbs.  The recorder stands  *)
(* in the schedule's three sampler slots; predictions, observations of the tree in *)
(* hand and stored copies are checked where the driver asked for them.             *)
EXTENDS BartGibbs, BartDraws, TraceLib
VARIABLES snaps,          \* forest at the end of each sweep
          noise           \* noise scale (10^-6) in force, where recorded
vars == <<gvars, lvars, snaps, noise>>
TO == INSTANCE TreeObs WITH y <- seen, tree <- (IF hand = 0 THEN forest[1] ELSE forest[hand]),
                            rows <- (IF hand = 0 THEN frows[1] ELSE frows[hand])

RECURSIVE Adopt(_, _, _)
Adopt(g, h, i) ==
    IF i < 1 \/ i > Len(g) \/ h > 500000000 THEN [dec |-> << >>, lv |-> (h :> 0)]
    ELSE IF g[i][1] = 1
         THEN LET a == Adopt(g, Left(h), g[i][2]) b == Adopt(g, Right(h), g[i][3]) IN
              [dec |-> (h :> <<g[i][5], g[i][6]>>) @@ a.dec @@ b.dec, lv |-> a.lv @@ b.lv]
         ELSE [dec |-> << >>, lv |-> (h :> g[i][7])]
AdoptTree(g) == LET rt == TO!RootsIn(g) IN IF rt = {} THEN StumpTree(0) ELSE Adopt(g, 1, CHOOSE i \in rt : TRUE)

TInit == LInit /\ snaps = << >> /\ noise = (IF Has(Tr, "sg0") THEN Tr.sg0 ELSE 0) /\ GInit(Tr.X, Tr.Y, [k \in 1..Len(Tr.gs) |-> AdoptTree(Tr.gs[k])])

Tol == Tr.tol
NearV(a, b) == Len(a) = Len(b) /\ \A r \in 1..Len(a) : Near(a[r], b[r], Tol)
AsSeq(f) == [r \in 1..Len(X) |-> f[r]]
RECURSIVE SumPredictRow(_, _, _)
SumPredictRow(row, f, k) == IF k = 0 THEN 0 ELSE PredictRow(row, f[k]) + SumPredictRow(row, f, k - 1)
PredictForest(Q, f) == [r \in 1..Len(Q) |-> SumPredictRow(Q[r], f, Len(f))]

\* the state after putting back the tree in hand, if any
RunBack == IF hand = 0 THEN run ELSE PlusV(run, TreePred(hand))
DoneBack == IF hand = 0 THEN done ELSE done \cup {hand}
LeftOver == IF hand = 0 THEN {} ELSE
            Clause("C06.allleaves", drawn = DOMAIN forest[hand].lv, <<"tree", hand, "leaves", DOMAIN forest[hand].lv, "redrawn", drawn>>)

PredFails(e, f, tot) ==
    (IF Has(e, "pin") THEN Clause("C05.insample", NearV(e.pin, AsSeq(tot)), <<"expected", tot, "got", e.pin>>) ELSE {})
    \cup (IF Has(e, "rs") THEN Clause("C06.residuals", NearV(e.rs, AsSeq(MinusV(Y, tot))), <<"expected", MinusV(Y, tot), "got", e.rs>>) ELSE {})
    \cup (IF Has(e, "pq") THEN LET x == PredictForest(Tr.Q[e.pq[1]], f) IN
              Clause("C05.outofsample", NearV(e.pq[2], x), <<"expected", x, "got", e.pq[2]>>) ELSE {})

TreeEvent(e) ==
    /\ IF e.k \in 1..NT
       THEN LET run0 == RunBack
                r1 == MinusV(run0, TreePred(e.k))
                exp == MinusV(Y, r1)
                st == TO!ApplyAll(<<forest[e.k], frows[e.k], TRUE>>, e.ms)
                f1 == [forest EXCEPT ![e.k] = st[1]]
            IN  /\ forest' = f1 /\ frows' = [frows EXCEPT ![e.k] = st[2]]
                /\ run' = r1 /\ seen' = exp /\ hand' = e.k /\ restr' = TRUE /\ drawn' = {} /\ done' = DoneBack
                /\ Advance(LeftOver
                     \cup Clause("C06.once", e.k \notin DoneBack, <<"tree", e.k, "again; done", DoneBack>>)
                     \cup Clause("C06.beforenoise", ~noisy, e.k)
                     \cup UNION {Clause("C06.target", NearV(e.seen[j], AsSeq(exp)), <<"tree", e.k, "expected", exp, "got", e.seen[j]>>) : j \in 1..Len(e.seen)}
                     \cup (IF Has(e, "sums") THEN   \* <<node, sum>> seen before the structure step
                             UNION {Clause("C06.sums", LET h == e.sums[j][1] IN h \in DOMAIN frows[e.k] /\
                                 Near(e.sums[j][2], SumRows(AsSeq(exp), frows[e.k][h]), Tol * Len(X)), e.sums[j]) : j \in 1..Len(e.sums)} ELSE {})
                     \cup Clause("C02.applied", st[3], e.ms)
                     \cup UNION {Clause("C03.legal", TO!LegalMutation(forest[e.k], frows[e.k], e.ms[j]), e.ms[j]) : j \in 1..Len(e.ms)}
                     \cup (IF Has(e, "obs") THEN TO!NodeFails(st[1], st[2], AsSeq(exp), e.obs) ELSE {}))
       ELSE /\ UNCHANGED <<forest, frows, run, seen, hand, restr, drawn, done>>
            /\ Advance({<<"C06.unknown", "a tree that is not in the model was updated">>})
    /\ UNCHANGED <<X, Y, noisy, sweep, snaps, noise>>

\* leaf drawn with a known standard normal e.z (tenths) under the noise scale of the last noise draw
LeafDrawFails(e, ok) ==
    IF ~ok \/ ~Has(e, "z") THEN {} ELSE
    LET R == frows[hand][e.h] n == Cardinality(R) s == SumRows(AsSeq(seen), R) IN
    IF ~Evaluable(noise, Tr.kk, NT, n) THEN {} ELSE
    LET w == MeanOf(noise, Tr.kk, NT, n, s) + (e.z * SdOf(noise, Tr.kk, NT, n)) \div 10 IN
    Clause("C08.sweepleaf", Near(e.x, w, 60 + Tol), <<"tree", hand, "leaf", e.h, "noise", noise, "rows", n, "sum", s, "z", e.z, "expected", w, "got", e.x>>)

LeafEvent(e) ==
    LET ok == hand # 0 /\ e.k = hand /\ e.h \in DOMAIN forest[hand].lv IN
    /\ IF ok THEN /\ forest' = [forest EXCEPT ![hand] = SetLeaf(forest[hand], e.h, e.x)]
                  /\ drawn' = drawn \cup {e.h}
             ELSE /\ forest' = IF e.k \in 1..NT /\ e.h \in DOMAIN forest[e.k].lv THEN [forest EXCEPT ![e.k] = SetLeaf(forest[e.k], e.h, e.x)] ELSE forest
                  /\ UNCHANGED drawn
    /\ UNCHANGED <<X, Y, frows, run, hand, seen, restr, done, noisy, sweep, snaps, noise>>
    /\ Advance(LeafDrawFails(e, ok) \cup Clause("C06.leafof", ok, <<"tree in hand", hand, "leaf", e.h, "of tree", e.k>>)
               \cup Clause("C06.leafonce", ~ok \/ e.h \notin drawn, <<"tree", e.k, "leaf", e.h>>)
               \cup (IF Has(e, "sum") /\ ok THEN Clause("C06.leafsum", Near(e.sum, SumRows(AsSeq(seen), frows[hand][e.h]), Tol * Len(X)),
                        <<"expected", SumRows(AsSeq(seen), frows[hand][e.h]), "got", e.sum>>) ELSE {}))

NoiseEvent(e) ==
    /\ run' = RunBack /\ done' = DoneBack /\ hand' = 0 /\ seen' = << >> /\ restr' = FALSE /\ drawn' = {}
    /\ noisy' = TRUE
    /\ noise' = (IF Has(e, "sg") THEN e.sg ELSE noise)
    /\ UNCHANGED <<X, Y, forest, frows, sweep, snaps>>
    /\ LET exp == MinusV(Y, RunBack) IN
       Advance(LeftOver
         \cup Clause("C06.noiselast", DoneBack = 1..NT, <<"updated", DoneBack>>)
         \cup Clause("C06.noiseonce", ~noisy, "noise drawn twice")
         \cup Clause("C06.residuals", NearV(e.res, AsSeq(exp)), <<"expected", exp, "got", e.res>>)
         \cup PredFails(e, forest, RunBack))

SweepEvent(e) ==
    /\ run' = RunBack /\ done' = {} /\ hand' = 0 /\ seen' = << >> /\ restr' = FALSE /\ drawn' = {}
    /\ noisy' = FALSE /\ sweep' = sweep + 1
    /\ snaps' = Append(snaps, forest)
    /\ UNCHANGED <<X, Y, forest, frows, noise>>
    /\ Advance(LeftOver
         \cup Clause("C06.alltrees", DoneBack = 1..NT, <<"updated", DoneBack, "of", NT>>)
         \cup Clause("C06.noise", noisy, "no noise draw in the sweep")
         \cup PredFails(e, forest, RunBack)
         \cup (IF Has(e, "gs") THEN UNION {TO!StructFails(forest[k], [g |-> e.gs[k]], "C01+C02.", "C02.") : k \in 1..NT} ELSE {}))

\* a sweep given up (an exception out of a sampler, an iteration not carried on): the next one starts anew
AbandonEvent(e) ==
    /\ hand' = 0 /\ seen' = << >> /\ restr' = FALSE /\ drawn' = {} /\ done' = {} /\ noisy' = FALSE
    /\ run' = Total
    /\ noise' = (IF Has(e, "sg") THEN e.sg ELSE noise)
    /\ UNCHANGED <<X, Y, forest, frows, sweep, snaps>>
    /\ Advance(PredFails(e, forest, Total))
EditEvent(e) ==
    /\ EditLeaf(e.k, e.h, e.x)
    /\ UNCHANGED <<snaps, noise>>
    /\ Advance({})

Quiet(e, fails) == UNCHANGED <<gvars, snaps, noise>> /\ Advance(fails)
StoredFails(e) ==
    IF e.k \notin 1..Len(snaps) THEN {<<"C10.unknownsweep", ToString(e.k)>>} ELSE
    (IF Has(e, "pq") THEN LET x == PredictForest(Tr.Q[e.pq[1]], snaps[e.k]) IN
        Clause("C05+C10.stored", NearV(e.pq[2], x), <<"sweep", e.k, "expected", x, "got", e.pq[2]>>) ELSE {})
    \cup (IF Has(e, "gs") THEN
            Clause("C10.trees", Len(e.gs) = Len(snaps[e.k]), Len(e.gs))
            \cup (IF Len(e.gs) # Len(snaps[e.k]) THEN {} ELSE
                   UNION {TO!StructFails(snaps[e.k][j], [g |-> e.gs[j]], "C10.", "C10.") : j \in 1..Len(e.gs)}) ELSE {})

TNext ==
    /\ MoreEvents
    /\ LET e == Ev IN
        CASE e.op = "tree" -> TreeEvent(e)
          [] e.op = "leaf" -> LeafEvent(e)
          [] e.op = "sigma" -> NoiseEvent(e)
          [] e.op = "sweep" -> SweepEvent(e)
          [] e.op = "abandon" -> AbandonEvent(e)
          [] e.op = "edit" -> EditEvent(e)
          [] e.op = "init" -> Quiet(e, UNION {TO!StructFails(forest[k], [g |-> Tr.gs[k]], "C01+C02+C16.", "C02+C16.") : k \in 1..NT} \cup PredFails(e, forest, run))
          [] e.op = "pred" -> Quiet(e, PredFails(e, forest, IF hand = 0 THEN run ELSE RunBack))
          [] e.op = "stored" -> Quiet(e, StoredFails(e))
          [] e.op = "error" -> Quiet(e, {<<"ANY.raise", e.what>>})
TSpec == TInit /\ [][TNext]_vars
===============================================================================
