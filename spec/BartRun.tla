-------------------------------- MODULE BartRun --------------------------------
(* Chains run by workers in any order (C13): every chain builds a model from the data set *)
(* it was given and sweeps that model; the chains of a data set, NCh in a row, become that  *)
(* data set's result.  Draws come from one stream per process.                                *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS NCh,        \* chains per data set
          NData,      \* data sets
          Sweeps,
          Slot,       \* TRUE: the chains find their model in an attribute of the estimator they share
          Forked      \* TRUE: worker processes start with copies of one stream

VARIABLES pc, of, models, slot, stream, outs, results, estimator
rvars == <<pc, of, models, slot, stream, outs, results, estimator>>

Chains == 1..(NCh * NData)
DataOf(c) == (c - 1) \div NCh + 1
RunInit ==
    /\ pc = [c \in Chains |-> 0]                 \* 0 not begun, 1 constructed, 1 + s after s sweeps, -1 handed back
    /\ of = [c \in Chains |-> 0] /\ models = << >> /\ slot = 0
    /\ stream = [c \in Chains |-> 0]              \* draws taken by a process (process c if Forked, else all by process 1)
    /\ outs = [c \in Chains |-> << >>] /\ results = << >> /\ estimator = "as given"
Proc(c) == IF Forked THEN c ELSE 1
Construct(c) ==
    /\ pc[c] = 0
    /\ models' = Append(models, [data |-> DataOf(c), sweeps |-> << >>])
    /\ slot' = Len(models) + 1 /\ of' = [of EXCEPT ![c] = Len(models) + 1]
    /\ pc' = [pc EXCEPT ![c] = 1]
    /\ UNCHANGED <<stream, outs, results, estimator>>
MyModel(c) == IF Slot THEN slot ELSE of[c]
Sweep(c) ==
    /\ pc[c] \in 1..Sweeps
    /\ models' = [models EXCEPT ![MyModel(c)].sweeps = Append(@, [by |-> c, draw |-> stream[Proc(c)]])]
    /\ stream' = [stream EXCEPT ![Proc(c)] = @ + 1]
    /\ pc' = [pc EXCEPT ![c] = @ + 1]
    /\ UNCHANGED <<of, slot, outs, results, estimator>>
HandBack(c) ==
    /\ pc[c] = Sweeps + 1
    /\ outs' = [outs EXCEPT ![c] = models[MyModel(c)].sweeps] /\ pc' = [pc EXCEPT ![c] = 0 - 1]
    /\ UNCHANGED <<of, models, slot, stream, results, estimator>>
Collect ==
    /\ results = << >> /\ \A c \in Chains : pc[c] = 0 - 1
    /\ results' = [d \in 1..NData |-> [j \in 1..NCh |-> outs[(d - 1) * NCh + j]]]
    /\ UNCHANGED <<pc, of, models, slot, stream, outs, estimator>>
RunNext == Collect \/ \E c \in Chains : Construct(c) \/ Sweep(c) \/ HandBack(c)
RunSpec == RunInit /\ [][RunNext]_rvars

(* -------------------------------- properties -------------------------------------- *)
OwnModel == \A c \in Chains : pc[c] # 0 => \A i \in 1..Len(models[of[c]].sweeps) : models[of[c]].sweeps[i].by = c
OwnData == \A c \in Chains : pc[c] # 0 => models[of[c]].data = DataOf(c)
OutComplete == \A c \in Chains : pc[c] = 0 - 1 => Len(outs[c]) = Sweeps
NoDrawTwice == \A c, d \in Chains : c # d => \A i \in 1..Len(outs[c]) : \A j \in 1..Len(outs[d]) : outs[c][i].draw # outs[d][j].draw
ResultsInOrder == results # << >> => \A d \in 1..NData : \A j \in 1..NCh : \A i \in 1..Sweeps : results[d][j][i].by = (d - 1) * NCh + j
EstimatorKept == estimator = "as given"
===============================================================================
