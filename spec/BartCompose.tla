----------------------------- MODULE BartCompose ------------------------------
(* Estimators and selectors inside scikit-learn's machinery (C22): pipelines are cloned,   *)
(* copied, given parameters, fitted, cross-validated and searched over.  An estimator is     *)
(* its parameters and what it was last fitted to.                                             *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Mode       \* "sound"; mistaken: "shared", "kept", "lost", "leak", "stale"
VARIABLES hs,        \* the estimators at hand: [p, fit, kin]
          marks,     \* models scored so far: [train, test, p]
          last       \* what happened: <<operation, estimator>>
cvars == <<hs, marks, last>>
NoFit == [rows |-> {}, p |-> << >>]
CInit(p) == hs = <<[p |-> p, fit |-> NoFit, kin |-> 1]>> /\ marks = << >> /\ last = <<"new", 0>>
Cloned(e) == [p |-> IF Mode = "lost" THEN [e.p EXCEPT ![Len(e.p)] = 1] ELSE e.p, fit |-> IF Mode = "kept" THEN e.fit ELSE NoFit,
              kin |-> IF Mode = "shared" THEN e.kin ELSE Len(hs) + 1]
Put(e, n, v) == [e EXCEPT !.p[n] = v]
Fitted(e, rows) == [e EXCEPT !.fit = [rows |-> rows, p |-> IF Mode = "stale" /\ e.fit # NoFit THEN e.fit.p ELSE e.p]]
Clone(h) == hs' = Append(hs, Cloned(hs[h])) /\ last' = <<"clone", h>> /\ UNCHANGED marks
Copy(h) == hs' = Append(hs, [hs[h] EXCEPT !.kin = Len(hs) + 1]) /\ last' = <<"copy", h>> /\ UNCHANGED marks
Set(h, n, v) == hs' = [g \in 1..Len(hs) |-> IF hs[g].kin = hs[h].kin THEN Put(hs[g], n, v) ELSE hs[g]] /\ last' = <<"set", h>> /\ UNCHANGED marks
Fit(h, rows) == hs' = [hs EXCEPT ![h] = Fitted(@, rows)] /\ last' = <<"fit", h>> /\ UNCHANGED marks
Train(all, fold) == IF Mode = "leak" THEN all ELSE all \ fold
\* the models scored for one setting, fold by fold
Folds(e, F, all) == [i \in 1..Len(F) |-> [train |-> Train(all, F[i]), test |-> F[i], p |-> e.p]]
Cross(h, F, all) == marks' = marks \o Folds(hs[h], F, all) /\ last' = <<"cross", h>> /\ UNCHANGED hs
RECURSIVE Every(_, _, _, _, _)
Every(h, n, V, F, all) == IF V = << >> THEN << >> ELSE Folds(Put(hs[h], n, Head(V)), F, all) \o Every(h, n, Tail(V), F, all)
\* a search keeps the best setting, fitted to everything; which one is best is up to the scores
Search(h, n, V, F, all, best) == /\ marks' = marks \o Every(h, n, V, F, all)
                                 /\ hs' = Append(hs, Fitted(Put(Cloned(hs[h]), n, V[best]), all))
                                 /\ last' = <<"search", h>>
(* what is claimed *)
NoLeak == \A i \in 1..Len(marks) : marks[i].train \cap marks[i].test = {} /\ marks[i].train # {}
\* operations touch what they are about and nothing else
Elsewhere == \A g \in 1..Len(hs) : (g # last'[2] \/ last'[1] \in {"clone", "copy", "cross", "search"}) => hs'[g].p = hs[g].p /\ hs'[g].fit = hs[g].fit
CloneFresh == last[1] = "clone" => hs[Len(hs)].p = hs[last[2]].p /\ hs[Len(hs)].fit = NoFit
CopySame == last[1] = "copy" => hs[Len(hs)].p = hs[last[2]].p /\ hs[Len(hs)].fit = hs[last[2]].fit
FitCurrent == last[1] = "fit" => hs[last[2]].fit.p = hs[last[2]].p
===============================================================================
