--------------------------- MODULE MCBufferThreads ----------------------------
(* One cached source used by several threads (C13, C18), at the grain at which threads     *)
(* can be switched: look, refill, take.  With Checked the source looks whether its buffer     *)
(* is empty before it takes, and a thread can find it empty all the same; without it, it        *)
(* takes, and refills when there was nothing to take.                                            *)
EXTENDS Integers, FiniteSets, Sequences
CONSTANTS Threads, Size, Want, Checked
VARIABLES pc, got, buf, next, failed
tvars == <<pc, got, buf, next, failed>>
TInit == pc = [t \in Threads |-> "start"] /\ got = [t \in Threads |-> << >>] /\ buf = {} /\ next = 1 /\ failed = FALSE
Start(t) == /\ pc[t] = "start" /\ Len(got[t]) < Want
            /\ pc' = [pc EXCEPT ![t] = IF Checked /\ buf = {} THEN "refill" ELSE "take"]
            /\ UNCHANGED <<got, buf, next, failed>>
\* the new buffer is drawn and put in place in two steps
Refill(t) == /\ pc[t] = "refill"
             /\ next' = next + Size /\ buf' = next..(next + Size - 1)
             /\ pc' = [pc EXCEPT ![t] = "take"] /\ UNCHANGED <<got, failed>>
Pick(S) == CHOOSE d \in S : \A e \in S : e <= d
Take(t) == /\ pc[t] = "take"
           /\ IF buf = {} THEN IF Checked THEN failed' = TRUE /\ pc' = [pc EXCEPT ![t] = "dead"] /\ UNCHANGED <<got, buf>>
                                          ELSE pc' = [pc EXCEPT ![t] = "refill"] /\ UNCHANGED <<got, buf, failed>>
                          ELSE /\ got' = [got EXCEPT ![t] = Append(@, Pick(buf))] /\ buf' = buf \ {Pick(buf)}
                               /\ pc' = [pc EXCEPT ![t] = "start"] /\ UNCHANGED failed
           /\ UNCHANGED next
TNext == \E t \in Threads : Start(t) \/ Refill(t) \/ Take(t)
TSpec == TInit /\ [][TNext]_tvars /\ \A t \in Threads : WF_tvars(Start(t)) /\ SF_tvars(Refill(t)) /\ SF_tvars(Take(t))
NeverFails == ~failed
NoDrawTwice == \A t, u \in Threads : \A i \in 1..Len(got[t]), j \in 1..Len(got[u]) : (t # u \/ i # j) => got[t][i] # got[u][j]
EverybodyServed == <>(\A t \in Threads : Len(got[t]) = Want)
===============================================================================
