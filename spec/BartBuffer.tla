------------------------------ MODULE BartBuffer ------------------------------
(* Cached random sources (bartpy.samplers.scalar) and copies of them.  Every draw     *)
(* from the generator has its own number; a source holds a buffer of undelivered       *)
(* numbers, refills it only when it is empty, and a copy starts with an empty buffer.   *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT Size
VARIABLES next,       \* number of the next draw from the generator
          buf,        \* per source: undelivered draws
          given       \* per source: delivered draws, in order
bvars == <<next, buf, given>>
BInit == next = 1 /\ buf = << {} >> /\ given = << << >> >>
Refilled(s) == IF buf[s] = {} THEN next..(next + Size - 1) ELSE buf[s]
Deliver(s, d) ==
    /\ d \in Refilled(s)
    /\ buf' = [buf EXCEPT ![s] = Refilled(s) \ {d}]
    /\ next' = IF buf[s] = {} THEN next + Size ELSE next
    /\ given' = [given EXCEPT ![s] = Append(@, d)]
CopySource(s) == buf' = Append(buf, {}) /\ given' = Append(given, << >>) /\ UNCHANGED next
All == UNION {{given[s][i] : i \in 1..Len(given[s])} : s \in 1..Len(given)}
Held == UNION {buf[s] : s \in 1..Len(buf)}
\* C18
Once == /\ \A s \in 1..Len(given) : \A i, j \in 1..Len(given[s]) : i # j => given[s][i] # given[s][j]
        /\ \A s, u \in 1..Len(given) : s # u => \A i \in 1..Len(given[s]), j \in 1..Len(given[u]) : given[s][i] # given[u][j]
Unshared == \A s, u \in 1..Len(buf) : s # u => buf[s] \cap buf[u] = {}
NothingLost == All \cup Held = 1..(next - 1) /\ All \cap Held = {}
NeverDry == \A s \in 1..Len(buf) : Refilled(s) # {}
===============================================================================
