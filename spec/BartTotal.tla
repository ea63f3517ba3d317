------------------------------- MODULE BartTotal -------------------------------
(* Fit and predict as a terminating procedure (C17): every chain makes a fixed number   *)
(* of turns at its tree; a turn chooses a kind of move, again and again until that kind   *)
(* is possible, or makes no move at all when none is; afterwards every query row is        *)
(* answered.                                                                                *)
EXTENDS BartPropose
CONSTANTS Guarded      \* FALSE: the turn that forgets to look whether any move is possible

VARIABLES pc, chain, turn, answer
xtvars == <<tvars, pc, chain, turn, answer>>
ProposeMoves == Moves(tree, rows)

TotalInit(x0) == TreeInit(x0, [r \in 1..Len(x0) |-> r]) /\ pc = "choose" /\ chain = 1 /\ turn = 0 /\ answer = << >>
Unmoved == UNCHANGED tvars
TurnOver(turns, chains) ==
    /\ turn' = (turn + 1) % turns
    /\ chain' = chain + (turn + 1) \div turns
    /\ pc' = IF turn + 1 = turns /\ chain = chains THEN "predict" ELSE IF turn + 1 = turns THEN "construct" ELSE "choose"
NoMove(turns, chains) == pc = "choose" /\ Guarded /\ ProposeMoves = {} /\ Unmoved /\ TurnOver(turns, chains) /\ UNCHANGED answer
\* a kind that is not possible is chosen again
Retry(kind) == /\ pc = "choose" /\ (Guarded => ProposeMoves # {})
               /\ {m \in ProposeMoves : m[1] = kind} = {}
               /\ UNCHANGED <<tvars, pc, chain, turn, answer>>
Accept(kind, turns, chains) ==
    /\ pc = "choose"
    /\ \E m \in {m \in ProposeMoves : m[1] = kind} : IF kind = "grow" THEN Grow(m[2], m[3], m[4]) ELSE Prune(m[2])
    /\ TurnOver(turns, chains) /\ UNCHANGED answer
Reject(kind, turns, chains) == pc = "choose" /\ {m \in ProposeMoves : m[1] = kind} # {} /\ Unmoved /\ TurnOver(turns, chains) /\ UNCHANGED answer
Construct == /\ pc = "construct" /\ pc' = "choose"
             /\ tree' = StumpTree(0) /\ rows' = (1 :> RowsOf(X))
             /\ UNCHANGED <<X, y, chain, turn, answer>>
Predict(Q) == pc = "predict" /\ pc' = "done" /\ answer' = [r \in 1..Len(Q) |-> Route(Q[r], tree)] /\ UNCHANGED <<tvars, chain, turn>>

\* every row, seen or not, has exactly one leaf
AlwaysOneLeaf(Q) == \A r \in 1..Len(Q) : Cardinality({i \in DOMAIN tree.lv : OnPath(Q[r], tree, i)}) = 1
NeverEmpty == \A i \in DOMAIN tree.lv : rows[i] # {}
MoveOrNone == \* a turn is never stuck: some kind is possible, or the turn is over
    pc = "choose" => (ProposeMoves = {} \/ \E k \in {"grow", "prune"} : {m \in ProposeMoves : m[1] = k} # {})

(* what a fit and what follows it must deliver *)
SamplesPerChain(samp, tn, td) == (tn * samp + td - 1) \div td
===============================================================================
