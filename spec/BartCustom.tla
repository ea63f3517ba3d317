------------------------------ MODULE BartCustom ------------------------------
(* A chain whose parts the caller wrote: a schedule that decides its next step only      *)
(* after the last one has run, and a logger that says what is recorded                     *)
(* (bartpy.samplers.modelsampler, bartpy.trace).  Messages: 0 is None, which records       *)
(* nothing; odd ones count as true, the other even ones as false.                           *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT Mode            \* "sound", or a mistaken design the properties refute
CeilDiv(a, b) == (a + b - 1) \div b
Kept(c, ss) == CeilDiv((ss + 1) * c.tn, c.td) > CeilDiv(ss * c.tn, c.td)

None == 0
Start(c) == [conf |-> c, loggers |-> 0, done |-> 0, in |-> FALSE, pend |-> << >>, ran |-> << >>, tally |-> << >>,
             owe |-> [p |-> FALSE, m |-> FALSE, a |-> FALSE], models |-> << >>, preds |-> << >>, accs |-> << >>]

\* what has been logged in a sweep, in order: <<kind, message>>; what is stored of it: kind -> <<true, all>>
KindsOf(t) == {t[i][1] : i \in {i \in 1..Len(t) : Mode = "nones" \/ t[i][2] # None}}
Share(t, k) == LET of == {i \in 1..Len(t) : t[i][1] = k /\ (Mode = "nones" \/ t[i][2] # None)}
               IN  <<k, Cardinality({i \in of : t[i][2] % 2 = 1}), Cardinality(of)>>
Record(t) == {Share(t, k) : k \in KindsOf(t)}

Settled(st) == ~st.in /\ st.ran = << >> /\ ~st.owe.p /\ ~st.owe.m
Close(st) == IF st.owe.a THEN [st EXCEPT !.accs = Append(@, Record(st.tally)), !.owe.a = FALSE] ELSE st
LastSweep(st) == st.done = st.conf.burn + st.conf.samp

\* events: <<name>> or <<name, kind>> or <<name, kind, message>>
Can(st, e) ==
    CASE e[1] = "new" -> st.loggers = 0 /\ st.done = 0
      [] e[1] = "begin" -> Settled(st) /\ ~LastSweep(st) /\ st.loggers = 1
      [] e[1] = "offer" -> st.in /\ (st.pend = << >> \/ Mode = "eager")
      [] e[1] = "run" -> st.in /\ st.pend # << >>
      [] e[1] = "log" -> st.ran # << >> /\ Head(st.ran) = e[2] /\ st.loggers = 1
      [] e[1] = "over" -> st.in /\ (st.pend = << >> \/ Mode = "eager")
      [] e[1] = "pred" -> st.owe.p /\ ~st.in /\ st.ran = << >>
      [] e[1] = "model" -> st.owe.m /\ ~st.in /\ st.ran = << >>
      [] e[1] = "out" -> Settled(st) /\ LastSweep(st) /\ st.loggers = 1
Put(s, m) == IF m = None /\ Mode # "holes" THEN s ELSE Append(s, m)
Step(st, e) ==
    CASE e[1] = "new" -> [st EXCEPT !.loggers = @ + 1]
      [] e[1] = "begin" -> [Close(st) EXCEPT !.in = TRUE, !.tally = IF Mode = "carried" THEN @ ELSE << >>]
      [] e[1] = "offer" -> [st EXCEPT !.pend = Append(@, e[2])]
      [] e[1] = "run" -> [st EXCEPT !.pend = Tail(@), !.ran = IF Mode = "quietburn" /\ st.done < st.conf.burn THEN @ ELSE Append(@, Head(st.pend))]
      [] e[1] = "log" -> [st EXCEPT !.ran = Tail(@), !.tally = Append(@, <<e[2], e[3]>>)]
      [] e[1] = "over" ->
            LET kept == st.done >= st.conf.burn /\ Kept(st.conf, st.done - st.conf.burn) IN
            [st EXCEPT !.in = FALSE, !.done = @ + 1, !.pend = << >>,
                       !.owe = [p |-> kept /\ st.conf.wantp, m |-> kept, a |-> kept /\ st.conf.wanta]]
      [] e[1] = "pred" -> [st EXCEPT !.preds = Put(@, e[3]), !.owe.p = FALSE]
      [] e[1] = "model" -> [st EXCEPT !.models = Put(@, e[3]), !.owe.m = FALSE]
      [] e[1] = "out" -> [Close(st) EXCEPT !.loggers = 2]
===============================================================================
