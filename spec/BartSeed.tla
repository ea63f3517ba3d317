------------------------------- MODULE BartSeed -------------------------------
(* Where the random numbers of a run come from, and that the same seed therefore gives   *)
(* the same results.  Two executions of one program side by side: both start in a fresh   *)
(* process and seed numpy's generator; what they do in between (how worker processes are   *)
(* scheduled) is up to each.  A result is the sequence of draws it was made from.           *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Mode,        \* "seeded": the design.  Mistaken: "shared", "arrival", "process", "leftover"
          Size,        \* draws buffered at a time
          Need,        \* draws one chain takes
          Workers      \* chains of a fit in worker processes
Exec == {1, 2}
VARIABLES prog,        \* the program: a sequence of "seed", "fit", "workers"
          at,          \* per execution: next operation
          gen,         \* per execution: <<seeding, draws since>> of the parent's generator
          buf,         \* per execution: undelivered draws of the estimator's source
          work,        \* per execution: draws of each chain of the worker fit in progress (<< >>: none)
          from,        \* per execution: the stream each of those chains draws from
          ended,       \* per execution: chains in the order they ended
          res          \* per execution: results so far
svars == <<prog, at, gen, buf, work, from, ended, res>>
Fresh == << >>
SInit(p) == /\ prog = p
            /\ at = [x \in Exec |-> 1] /\ gen = [x \in Exec |-> <<0, 0>>]
            \* a fresh process has delivered nothing; "leftover": the second one has used its source before
            /\ buf = [x \in Exec |-> IF Mode = "leftover" /\ x = 2 THEN << <<0 - 1, 1>> >> ELSE << >>]
            /\ work = [x \in Exec |-> << >>] /\ from = [x \in Exec |-> << >>] /\ ended = [x \in Exec |-> << >>] /\ res = [x \in Exec |-> << >>]
\* k draws out of a source with buffer b, the generator standing at g: <<draws, buffer, generator>>
RECURSIVE Take(_, _, _)
Take(k, b, g) == IF k = 0 THEN << << >>, b, g>>
                 ELSE LET full == IF b = << >> THEN [i \in 1..Size |-> <<g[1], g[2] + Size + 1 - i>>] ELSE b
                          g1 == IF b = << >> THEN <<g[1], g[2] + Size>> ELSE g
                          t == Take(k - 1, Tail(full), g1)
                      IN << <<Head(full)>> \o t[1], t[2], t[3]>>
Op(x) == prog[at[x]]
More(x) == at[x] <= Len(prog)
Seed(x) == /\ More(x) /\ Op(x) = "seed"
           /\ gen' = [gen EXCEPT ![x] = <<at[x], 0>>]
           /\ at' = [at EXCEPT ![x] = @ + 1]
           /\ UNCHANGED <<prog, buf, work, from, ended, res>>
FitHere(x) == /\ More(x) /\ Op(x) = "fit"
              /\ LET t == Take(Need, buf[x], gen[x]) IN
                 /\ res' = [res EXCEPT ![x] = Append(@, t[1])] /\ buf' = [buf EXCEPT ![x] = t[2]] /\ gen' = [gen EXCEPT ![x] = t[3]]
              /\ at' = [at EXCEPT ![x] = @ + 1]
              /\ UNCHANGED <<prog, work, from, ended>>
\* every chain is handed a seed of the parent's stream when it is submitted; its own source starts empty
Submit(x) == /\ More(x) /\ Op(x) = "workers" /\ work[x] = << >>
             /\ work' = [work EXCEPT ![x] = [c \in 1..Workers |-> << >>]]
             /\ from' = [from EXCEPT ![x] = [c \in 1..Workers |->
                            IF Mode = "process" THEN <<"process", x, c>> ELSE IF Mode = "shared" THEN gen[x] ELSE <<gen[x][1], gen[x][2] + c>>]]
             /\ gen' = [gen EXCEPT ![x] = IF Mode = "shared" THEN @ ELSE <<@[1], @[2] + Workers>>]
             /\ UNCHANGED <<prog, at, buf, ended, res>>
Drawn(w) == LET RECURSIVE Sum(_)
                Sum(c) == IF c = 0 THEN 0 ELSE Len(w[c]) + Sum(c - 1) IN Sum(Len(w))
Step(x, c) == /\ work[x] # << >> /\ Len(work[x][c]) < Need
              /\ LET d == IF Mode = "shared" THEN <<gen[x][1], gen[x][2] + Drawn(work[x]) + 1>> ELSE <<from[x][c], Len(work[x][c]) + 1>> IN
                 work' = [work EXCEPT ![x][c] = Append(@, d)]
              /\ ended' = [ended EXCEPT ![x] = IF Len(work'[x][c]) = Need THEN Append(@, c) ELSE @]
              /\ UNCHANGED <<prog, at, gen, buf, from, res>>
Gather(x) == /\ work[x] # << >> /\ Len(ended[x]) = Workers
             /\ res' = [res EXCEPT ![x] = Append(@, IF Mode = "arrival" THEN [i \in 1..Workers |-> work[x][ended[x][i]]] ELSE work[x])]
             /\ work' = [work EXCEPT ![x] = << >>] /\ from' = [from EXCEPT ![x] = << >>] /\ ended' = [ended EXCEPT ![x] = << >>]
             /\ at' = [at EXCEPT ![x] = @ + 1]
             /\ UNCHANGED <<prog, gen, buf>>
SNext == \E x \in Exec : Seed(x) \/ FitHere(x) \/ Submit(x) \/ Gather(x) \/ \E c \in 1..Workers : Step(x, c)
(* C21 *)
Agree(a, b) == \A i \in 1..Len(a) : i <= Len(b) => a[i] = b[i]
SameResults == Agree(res[1], res[2])
\* what makes it so: no draw is used twice within a result history (C13, C18), and nothing but the seed decides a draw
===============================================================================
