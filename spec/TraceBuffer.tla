----------------------------- MODULE TraceBuffer ------------------------------
(* Recorded use of the real sources.  e.v names the delivered value (equal values have *)
(* equal names), e.refill the names of the values drawn from the generator for this     *)
(* delivery, in any order, where the recorder saw them.                                  *)
EXTENDS FixMath, TraceLib, FiniteSets
VARIABLES buf,      \* per source: names of undelivered values, or <<-1>> when unknown
          given     \* per source: names delivered since the source was made or copied
vars == <<buf, given, lvars>>
TInit == LInit /\ buf = << << >> >> /\ given = << << >> >>
Drop(s, v) == IF \E i \in 1..Len(s) : s[i] = v
              THEN LET i == CHOOSE i \in 1..Len(s) : s[i] = v IN SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s)) ELSE s
DrawEvent(e) ==
    LET s == e.s
        b == IF Len(e.refill) > 0 THEN e.refill ELSE buf[s]
    IN  /\ buf' = [buf EXCEPT ![s] = Drop(b, e.v)]
        /\ given' = [given EXCEPT ![s] = Append(@, e.v)]
        /\ Advance(Clause("C18.early", Len(e.refill) = 0 \/ Len(buf[s]) = 0, <<"source", s, "refilled with", Len(buf[s]), "values undelivered">>)
             \cup (IF Tr.seen = 0 THEN {} ELSE Clause("C18.buffered", \E i \in 1..Len(b) : b[i] = e.v, <<"source", s, "delivered a value that was not buffered or was delivered before", e.v>>))
             \cup (IF Tr.distinct = 0 THEN {} ELSE
                     Clause("C18.once", \A u \in 1..Len(given) : \A i \in 1..Len(given[u]) : given[u][i] # e.v, <<"source", s, "delivered", e.v, "again">>))
             \cup Clause("C18.range", e.ok = 1, <<"source", s, "value out of range">>))
Below(pr, n) == LET q == n \div 100 IN (q * (pr \div 100)) \div 100
Fits(c, n, pr) == LET x == Below(pr, n) IN AbsV(c - x) <= 5 * ISqrt(x) + 8
\* counts below each edge; normal: edges in hundredths; uniform: edges in 10^-6; discrete: weights in 10^-6 per value
DistFails(e) ==
    LET pr(j) == IF e.kind = "normal" THEN Phi(e.edges[j]) ELSE e.edges[j]
        both(c, n, q) == IF q > 500000 THEN Fits(n - c, n, U - q) ELSE Fits(c, n, q)
    IN  UNION {Clause("C18.distribution", both(e.below[j], e.n, pr(j)), <<e.kind, e.edges[j], "expected", pr(j), "got", e.below[j], "of", e.n>>) : j \in 1..Len(e.edges)}
\* e.below: number of disjoint pairs of deliveries, e.lag apart, of which both are below the edge
PairFails(e) ==
    LET pr(j) == IF e.kind = "normal" THEN Phi(e.edges[j]) ELSE e.edges[j]
        both(c, n, q) == IF q > 500000 THEN Fits(n - c, n, U - q) ELSE Fits(c, n, q)
    IN  UNION {Clause("C18.independent", both(e.below[j], e.n, MulFix(pr(j), pr(j))), <<e.kind, "lag", e.lag, e.edges[j], "expected", MulFix(pr(j), pr(j)), "got", e.below[j], "of", e.n>>) : j \in 1..Len(e.edges)}
\* many deliveries of one source at once: e.fills = << <<deliveries before it, number of values drawn>> >>
BulkFails(e) ==
    Clause("C18.bulkonce", e.kind = "discrete" \/ e.distinct = e.n, <<e.n, "deliveries,", e.distinct, "different values">>)
    \cup UNION {Clause("C18.bulkrefill", e.fills[i + 1][1] - e.fills[i][1] = e.fills[i][2], <<"buffers drawn (deliveries before, size)", e.fills[i], e.fills[i + 1]>>) : i \in 1..(Len(e.fills) - 1)}
TNext ==
    /\ MoreEvents
    /\ LET e == Ev IN
        CASE e.op = "draw" -> DrawEvent(e)
          [] e.op = "copy" -> (buf' = Append(buf, << >>) /\ given' = Append(given, << >>) /\ Advance({}))
          [] e.op = "dist" -> (UNCHANGED <<buf, given>> /\ Advance(DistFails(e)))
          [] e.op = "pairs" -> (UNCHANGED <<buf, given>> /\ Advance(PairFails(e)))
          [] e.op = "bulk" -> (UNCHANGED <<buf, given>> /\ Advance(BulkFails(e)))
          [] e.op = "error" -> (UNCHANGED <<buf, given>> /\ Advance({<<"C18.raise", e.what>>, <<"ANY.raise", e.what>>}))
TSpec == TInit /\ [][TNext]_vars
===============================================================================
