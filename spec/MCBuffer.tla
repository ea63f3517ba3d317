------------------------------- MODULE MCBuffer -------------------------------
EXTENDS BartBuffer, TLC, Json
CONSTANTS MaxHist, MaxSources
VARIABLE hist
MInit == BInit /\ hist = << >>
\* which buffered draw is delivered is left open; for the search the largest stands for any
Pick(S) == CHOOSE d \in S : \A e \in S : e <= d
MNext == /\ Len(hist) < MaxHist
         /\ \/ \E s \in 1..Len(buf) : Deliver(s, Pick(Refilled(s))) /\ hist' = Append(hist, <<"draw", s, IF buf[s] = {} THEN 1 ELSE 0>>)
            \/ \E s \in 1..Len(buf) : Len(buf) < MaxSources /\ CopySource(s) /\ hist' = Append(hist, <<"copy", s, 0>>)
MSpec == MInit /\ [][MNext]_<<bvars, hist>>
EmitTransitions == IF Len(hist') = MaxHist THEN PrintT("@T" \o ToJson(hist')) ELSE TRUE
===============================================================================
