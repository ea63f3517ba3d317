---------------------------- MODULE BartImportance ----------------------------
(* Permutation importance (C20).  The rows are split into folds; a model is fitted on   *)
(* the rows outside its fold, from data in which column Var is either as it was or        *)
(* shuffled over the rows, and is scored on exactly the fold.  Everything is by row        *)
(* number: cols[r] is the row whose value of the examined column row r now carries.        *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES folds, models, scored
ivars == <<folds, models, scored>>

IsPartition(F, N) == /\ \A i \in 1..Len(F) : F[i] # {} /\ F[i] \subseteq 1..N
                     /\ \A r \in 1..N : Cardinality({i \in 1..Len(F) : r \in F[i]}) = 1
Identity(N) == [r \in 1..N |-> r]
IsShuffle(c, N) == \A v \in 1..N : Cardinality({r \in 1..N : c[r] = v}) = 1
\* how often row r is among the held-out rows of the models held[1..]
HeldTimes(held, r) == Cardinality({i \in 1..Len(held) : r \in held[i]})
Complement(held, N) == (1..N) \ held
\* same values, whatever the order (a, b sequences)
SameBag(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Cardinality({j \in 1..Len(a) : a[j] = a[i]}) = Cardinality({j \in 1..Len(b) : b[j] = a[i]})

ImpInit == folds = << >> /\ models = << >> /\ scored = << >>
Split(F) == folds = << >> /\ folds' = F /\ UNCHANGED <<models, scored>>
\* a fitted model never saw the held-out rows
Fit(f, c, N) == models' = Append(models, [held |-> folds[f], train |-> Complement(folds[f], N), col |-> c]) /\ UNCHANGED <<folds, scored>>
Score(m) == scored' = Append(scored, [model |-> m, rows |-> models[m].held, col |-> models[m].col]) /\ UNCHANGED <<folds, models>>
===============================================================================
