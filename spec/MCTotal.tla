-------------------------------- MODULE MCTotal --------------------------------
(* Every covariate matrix with values in {0,1} of up to MaxRows rows and MaxCols columns:  *)
(* the procedure ends on each.  The matrices are printed and run, with every target over     *)
(* the same values, through the real estimator.                                               *)
EXTENDS BartTotal, Json
CONSTANTS MaxRows, MaxCols, Turns, Chains
Matrices == UNION {UNION {[1..n -> [1..p -> {0, 1}]] : p \in 1..MaxCols} : n \in 1..MaxRows}
Queries == << [j \in 1..MaxCols |-> 0], [j \in 1..MaxCols |-> 1], [j \in 1..MaxCols |-> 2], [j \in 1..MaxCols |-> IF j = 1 THEN 0 - 1 ELSE 1] >>
MInit == \E x \in Matrices : TotalInit(x)
Next == \/ NoMove(Turns, Chains)
        \/ \E k \in {"grow", "prune"} : Retry(k) \/ Accept(k, Turns, Chains) \/ Reject(k, Turns, Chains)
        \/ Construct \/ Predict(Queries)
\* both kinds are drawn again and again
Fair == /\ WF_xtvars(NoMove(Turns, Chains)) /\ WF_xtvars(Construct) /\ WF_xtvars(Predict(Queries))
        /\ \A k \in {"grow", "prune"} : SF_xtvars(Accept(k, Turns, Chains) \/ Reject(k, Turns, Chains))
MSpec == MInit /\ [][Next]_xtvars /\ Fair
Terminates == <>(pc = "done")
LeafInv == AlwaysOneLeaf(Queries) /\ AlwaysOneLeaf(X)
AnswerInv == pc = "done" => Len(answer) = Len(Queries) /\ \A r \in 1..Len(answer) : answer[r] \in DOMAIN tree.lv
\* a data set without two different rows leaves no move at all
ConstantMeansNoMove == (\A r, s \in RowsOf(X) : X[r] = X[s]) => ProposeMoves = {}
EmitMatrices == TLCGet("level") = 1 => PrintT("@T" \o ToJson(X))
===============================================================================
