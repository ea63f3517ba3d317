----------------------------- MODULE TraceShuffle ------------------------------
(* How the null data are shuffled (C14, C20): many small runs of N rows.  e.perms: the      *)
(* permutations of one run, in the order of their models (row r now carries the value of      *)
(* row perm[r]); e.one: a position picked beforehand; e.near, e.far: two positions picked      *)
(* beforehand (of one fold, of different folds; empty when there are no such two).             *)
(* Every permutation is equally likely, and no permutation tells anything about another.        *)
EXTENDS BartImportance, TraceLib
VARIABLES seen, equal
vars == <<ivars, seen, equal, lvars>>
TInit == LInit /\ ImpInit /\ seen = << >> /\ equal = [near |-> << >>, far |-> << >>]
RECURSIVE Fact(_)
Fact(n) == IF n = 0 THEN 1 ELSE n * Fact(n - 1)
Ways == Fact(Tr.n)
\* c of n, when each has one chance in w
Fits(c, n, w) == LET x == n \div w d == AbsV(c - x) IN d * d <= 36 * x + 100
Known == {s \in [1..Tr.n -> 1..Tr.n] : IsShuffle(s, Tr.n)}
Count(p) == Cardinality({i \in 1..Len(seen) : seen[i] = p})
Trues(s) == Cardinality({i \in 1..Len(s) : s[i]})
RunFails(e) == Clause(Tr.name \o ".bijection", \A i \in 1..Len(e.perms) : IsShuffle(e.perms[i], Tr.n), <<e.perms>>)
DoneFails ==
    UNION {Clause(Tr.name \o ".uniform", Fits(Count(p), Len(seen), Ways), <<"shuffle", p, "drawn", Count(p), "times out of", Len(seen)>>) : p \in Known}
    \cup Clause(Tr.name \o ".afresh", Fits(Trues(equal.near), Len(equal.near), Ways), <<"two permutations of a fold are the same", Trues(equal.near), "times out of", Len(equal.near)>>)
    \cup Clause(Tr.name \o ".afreshfold", Fits(Trues(equal.far), Len(equal.far), Ways), <<"permutations of two folds are the same", Trues(equal.far), "times out of", Len(equal.far)>>)
Pair(e, s, two) == IF Len(two) = 2 /\ two[1] <= Len(e.perms) /\ two[2] <= Len(e.perms) THEN Append(s, e.perms[two[1]] = e.perms[two[2]]) ELSE s
TNext ==
    /\ MoreEvents
    /\ UNCHANGED ivars
    /\ LET e == Ev IN
        CASE e.op = "run" -> (/\ seen' = (IF e.one <= Len(e.perms) THEN Append(seen, e.perms[e.one]) ELSE seen)
                              /\ equal' = [near |-> Pair(e, equal.near, e.near), far |-> Pair(e, equal.far, e.far)]
                              /\ Advance(RunFails(e)))
          [] e.op = "done" -> (UNCHANGED <<seen, equal>> /\ Advance(DoneFails))
          [] e.op = "error" -> (UNCHANGED <<seen, equal>> /\ Advance({<<"ANY.raise", e.what>>}))
TSpec == TInit /\ [][TNext]_vars
===============================================================================
