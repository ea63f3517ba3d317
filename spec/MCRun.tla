--------------------------------- MODULE MCRun ---------------------------------
(* Every interleaving of the chains; finished schedules are printed and forced on real threads. *)
EXTENDS BartRun, TLC, Json
CONSTANT Printing
VARIABLE sched
MInit == RunInit /\ sched = << >>
\* chains that have not begun are interchangeable within a data set only by their place: all orders are kept
MNext == \/ \E c \in Chains : (Construct(c) \/ Sweep(c)) /\ sched' = Append(sched, c)
         \/ (Collect \/ \E c \in Chains : HandBack(c)) /\ UNCHANGED sched
MSpec == MInit /\ [][MNext]_<<rvars, sched>>
NoSched == rvars
Done == Len(sched) = Cardinality(Chains) * (Sweeps + 1)
EmitSchedules == (Printing /\ Len(sched) # Len(sched') /\ Len(sched') = Cardinality(Chains) * (Sweeps + 1)
                  /\ \A c \in Chains : pc[c] # 0 - 1) => PrintT("@T" \o ToJson(sched'))
===============================================================================
