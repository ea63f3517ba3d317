------------------------------ MODULE TraceSeed -------------------------------
(* One program, run in several fresh processes from the same seeds.  Results are named     *)
(* by numbers (equal numbers: bit for bit equal results).  An execution is replayed against *)
(* what the first one got: the results of BartSeed are a function of the program alone.      *)
EXTENDS BartSeed, TraceLib
VARIABLES known,       \* results of the first execution
          host, k      \* execution being read, results of it read so far
vars == <<svars, known, host, k, lvars>>
TInit == LInit /\ known = << >> /\ host = 0 /\ k = 0 /\ SInit(Tr.prog)
Same(e) == IF host = 1 THEN {} ELSE
           Clause("C21.same", k + 1 <= Len(known) /\ Agree(<<e.d>>, <<known[k + 1]>>),
                  <<"operation", k + 1, e.what, "result", e.d, "in execution", host, "; the first had", IF k + 1 <= Len(known) THEN known[k + 1] ELSE 0>>)
TNext ==
    /\ MoreEvents
    /\ UNCHANGED svars
    /\ LET e == Ev IN
        CASE e.op = "host" -> (host' = host + 1 /\ k' = 0 /\ UNCHANGED known /\ Advance({}))
          [] e.op = "result" -> (known' = (IF host = 1 THEN Append(known, e.d) ELSE known) /\ k' = k + 1 /\ UNCHANGED host /\ Advance(Same(e)))
          [] e.op = "done" -> (UNCHANGED <<known, host, k>> /\ Advance(Clause("C21.count", k = Len(known), <<k, "results instead of", Len(known)>>)))
          [] e.op = "error" -> (UNCHANGED <<known, host, k>> /\ Advance({<<"ANY.raise", e.what>>}))
TSpec == TInit /\ [][TNext]_vars
===============================================================================
