-------------------------------- MODULE MCSnap --------------------------------
(* Exhaustive small instance; EmitTransitions prints histories with the snapshots     *)
(* they must leave, for replay.  Nodes are named by their path from the root.          *)
EXTENDS BartSnap, Json
CONSTANTS MaxHist
VARIABLE hist
RECURSIVE PathTo(_, _, _)
PathTo(h, r, i) == IF r = i THEN "." ELSE IF r \notin DOMAIN h \/ h[r].k = 0 THEN "" ELSE
    LET a == PathTo(h, h[r].l, i) b == PathTo(h, h[r].r, i) IN IF a # "" THEN "L" \o a ELSE IF b # "" THEN "R" \o b ELSE ""
LP(i) == PathTo(heap, live.root, i)
SP(s, i) == PathTo(heap, snaps[s].root, i)
MInit == SInit /\ hist = << >>
MNext == /\ Len(hist) < MaxHist
         /\ \/ \E i \in live.nodes, c \in {1, 2} : GrowNode(i, c) /\ hist' = Append(hist, <<"grow", LP(i), c>>)
            \/ \E i \in live.nodes : PruneNode(i) /\ hist' = Append(hist, <<"prune", LP(i)>>)
            \/ \E i \in live.nodes : SetVal(i, Len(hist) + 1) /\ hist' = Append(hist, <<"value", LP(i), Len(hist) + 1>>)
            \/ SetNoise(Len(hist) + 1) /\ hist' = Append(hist, <<"noise", Len(hist) + 1>>)
            \/ Store /\ hist' = Append(hist, <<"store">>)
            \/ \E s \in 1..Len(snaps) : \E i \in snaps[s].nodes : EditVal(s, i, Len(hist) + 1) /\ hist' = Append(hist, <<"editvalue", s, SP(s, i), Len(hist) + 1>>)
            \/ \E s \in 1..Len(snaps) : \E i \in snaps[s].nodes : EditPrune(s, i) /\ hist' = Append(hist, <<"editprune", s, SP(s, i)>>)
MSpec == MInit /\ [][MNext]_<<svars, hist>>
EmitTransitions == IF Len(hist') = MaxHist /\ Len(snaps') > 0
                   THEN PrintT("@T" \o ToJson([h |-> hist', live |-> <<Abs(heap', live'.root), sigma'>>, snaps |-> [s \in 1..Len(snaps') |-> snaps'[s].then]])) ELSE TRUE
===============================================================================
