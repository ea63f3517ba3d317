----------------------------- MODULE MCImportance -----------------------------
(* Every way to split N rows into K folds and to shuffle the column, for PERMS models     *)
(* per fold; the settings of finished runs are printed and run through the real functions.   *)
EXTENDS BartImportance, TLC
CONSTANTS N, K, PERMS, Shuffling
MInit == ImpInit
Order == Len(models)      \* fold by fold, PERMS models each
FoldOf(m) == (m - 1) \div PERMS + 1
Cols == IF Shuffling THEN {c \in [1..N -> 1..N] : IsShuffle(c, N)} ELSE {Identity(N)}
Folds == {F \in [1..K -> SUBSET (1..N)] : IsPartition(F, N)}
MNext == \/ \E F \in Folds : Split(F)
         \/ folds # << >> /\ Order < K * PERMS /\ \E c \in Cols : Fit(FoldOf(Order + 1), c, N)
         \/ Order = K * PERMS /\ Len(scored) < Order /\ Score(Len(scored) + 1)
MSpec == MInit /\ [][MNext]_ivars
Finished == Order = K * PERMS /\ Len(scored) = Order
NoLeak == \A i \in 1..Len(scored) : scored[i].rows \cap models[scored[i].model].train = {} /\ scored[i].rows \cup models[scored[i].model].train = 1..N
EveryRowOnce == Finished => \A r \in 1..N : HeldTimes([i \in 1..Len(scored) |-> scored[i].rows], r) = PERMS
OneEach == Finished => Len(scored) = K * PERMS
OwnValues == \A i \in 1..Len(models) : SameBag(models[i].col, Identity(N))
FoldsKept == [][folds # << >> => folds' = folds]_ivars
MView == ivars
===============================================================================
