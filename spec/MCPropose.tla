------------------------------ MODULE MCPropose -------------------------------
(* The chain of proposals that are always accepted, explored exhaustively.         *)
EXTENDS BartPropose
CONSTANTS MaxDec, NSets
DataSets == <<
   << <<1, 1>>, <<2, 1>>, <<2, 2>>, <<3, 1>> >>,
   << <<1, 2>>, <<1, 1>>, <<1, 3>> >>,
   << <<2, 1>>, <<1, 1>>, <<1, 1>> >>,
   << <<1>>, <<2>>, <<3>>, <<4>>, <<5>> >>,
   << <<1, 1, 2>>, <<2, 1, 1>> >>,
   << <<4, 1>>, <<3, 2>>, <<2, 2>>, <<1, 3>>, <<3, 1>> >>,
   << <<1, 1>>, <<1, 1>> >>,
   << <<1, 6>>, <<2, 5>>, <<3, 4>>, <<4, 3>>, <<4, 2>>, <<4, 1>> >> >>
PInit == \E d \in 1..NSets : TreeInit(DataSets[d], [r \in 1..Len(DataSets[d]) |-> r])
PNext == \E m \in Moves(tree, rows) :
            IF m[1] = "grow" THEN Cardinality(DOMAIN tree.dec) < MaxDec /\ Grow(m[2], m[3], m[4]) ELSE Prune(m[2])
PSpec == PInit /\ [][PNext]_tvars
NormalisedInv == Normalised(50, 50) /\ Normalised(30, 70) /\ Normalised(90, 10)
PositiveInv == AllPositive(50, 50)
NeverEmptySide == \A i \in Decisions : rows[Left(i)] # {} /\ rows[Right(i)] # {}
===============================================================================
