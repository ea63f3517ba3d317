-------------------------------- MODULE TraceRun --------------------------------
(* Recorded runs of several chains.  Every model a chain samples is numbered; log[m] is     *)
(* what is known of model m: where it ran, which data sets its data equal, the noise scales   *)
(* its sweeps found (numbered exactly), the set of its random draws and its free choices.      *)
(* Tr.Y[d]: target of data set d in integer base units; everything in original units is in     *)
(* 10^-4 base units.                                                                            *)
EXTENDS BartUnits, FiniteSets, TraceLib
VARIABLES log, first, cfg
vars == <<log, first, cfg, lvars>>
TInit == LInit /\ log = << >> /\ first = 1 /\ cfg = << >>

\* begin: a run of chains over the data sets e.sets; sched: the forced interleaving, or empty
FoundFails(e) ==
    Clause("C13.owndata", e.data # << >>, <<"model", e.m, "has data that are in no data set">>)
    \cup (IF e.m > Len(log) THEN {} ELSE
          Clause("C13.worker", log[e.m].t = e.t, <<"model", e.m, "was sampled by worker", log[e.m].t, "and by", e.t>>)
          \cup Clause("C13.owndata", ToSetOf(e.data) = log[e.m].data, <<"model", e.m, "changed data">>))
Fresh(m, e) == ToSetOf(e.draws) \ (IF m > Len(log) THEN {} ELSE log[m].draws)
Record(e) ==
    IF e.m > Len(log)
    THEN Append(log, [t |-> e.t, data |-> ToSetOf(e.data), s |-> <<e.s>>, draws |-> ToSetOf(e.draws), kinds |-> << >>])
    ELSE [log EXCEPT ![e.m].s = Append(@, e.s), ![e.m].draws = @ \cup ToSetOf(e.draws)]
\* the gates were passed in the order of the schedule
\* ------------------------------------------------------------------ what a run handed back
Group(o, j) == SubSeq(o.s, (j - 1) * cfg.samp + 1, j * cfg.samp)
\* the sweeps of model m are the samples g: all but the last were found by the next sweep
Ran(m, g) == Len(log[m].s) = cfg.burn + cfg.samp /\ SubSeq(log[m].s, cfg.burn + 2, cfg.burn + cfg.samp) = SubSeq(g, 1, cfg.samp - 1)
Mine == first..Len(log)
Source(d, g) == {m \in Mine : cfg.sets[d] \in log[m].data /\ Ran(m, g)}
NGroups == cfg.chains
OutFails(e) ==
    LET D == 1..Len(cfg.sets) IN
    Clause("C13.results", Len(e.out) = Len(cfg.sets), <<"models", Len(e.out), "data sets", Len(cfg.sets)>>)
    \cup Clause("C13.ran", Cardinality(Mine) = Len(cfg.sets) * cfg.chains, <<"chains that ran", Cardinality(Mine), "data sets", Len(cfg.sets), "chains each", cfg.chains>>)
    \cup (IF Len(e.out) # Len(cfg.sets) THEN {} ELSE
      UNION {LET o == e.out[d] y == Tr.Y[cfg.sets[d]] IN
        Clause("C13.samples", Len(o.s) = cfg.chains * cfg.samp, <<"data set", d, "samples", Len(o.s), "expected", cfg.chains * cfg.samp>>)
        \cup (IF Len(o.s) # cfg.chains * cfg.samp THEN {} ELSE
              Clause("C13.chains", \A j \in 1..cfg.chains : Source(d, Group(o, j)) # {}, <<"data set", d, "samples", o.s, "chains", [m \in Mine |-> log[m]]>>)
              \cup Clause("C13.distinct", cfg.samp < 2 \/ \A j, k \in 1..cfg.chains : j # k => Source(d, Group(o, j)) \cap Source(d, Group(o, k)) = {}, <<"data set", d, "two results from one chain">>))
        \cup Clause("C13.data", ToSetOf(o.data) = ToSetOf(cfg.same[d]), <<"data set", d, "the returned model holds data", o.data>>)
        \cup Clause("C13.trees", o.nt = cfg.nt, <<"data set", d, "trees", o.nt>>)
        \cup Clause("C13.params", o.params = 1, <<"data set", d, "other parameters than the specification model">>)
        \cup Clause("C13.units", Len(o.pred) = Len(y) /\ \A r \in 1..Len(y) : Near(o.pred[r], Expected(y, o.sp)[r], UnitTol(y)), <<"data set", d, "expected", Expected(y, o.sp), "got", o.pred>>)
        \cup Clause("C13.insample", o.stored = 0 \/ (Len(o.ins) = Len(y) /\ \A r \in 1..Len(y) : Near(o.ins[r], Expected(y, o.sp)[r], UnitTol(y))), <<"data set", d, "expected", Expected(y, o.sp), "got", o.ins>>)
        \cup Clause("C13.residuals", o.stored = 0 \/ (Len(o.res) = Len(y) /\ \A r \in 1..Len(y) : Near(o.res[r], y[r] * 10000 - Expected(y, o.sp)[r], UnitTol(y))), <<"data set", d, "residuals", o.res>>)
        : d \in D})
    \cup Clause("C13.draws", \A m \in 1..Len(log), n \in Mine : m # n => log[m].draws \cap log[n].draws = {}, "two chains have random draws in common")
    \cup Clause("C13.lastdraws", NoRepeats(e.last), <<"two samples have the same noise scale", e.last>>)
    \cup Clause("C13.shared", e.shared = 0, <<"objects that two chains' models share", e.shared>>)
    \cup Clause("C13.spec", e.spec = 1, "the specification model was changed")
    \cup Clause("C13.inputs", e.inputs = 1, "the caller's data were changed")
KindFails(e) == Clause("C13.choices", \A m, n \in 1..Len(e.kinds) : (m < n /\ Len(e.kinds[m]) >= 40 /\ Len(e.kinds[n]) >= 40) => SubSeq(e.kinds[m], 1, 40) # SubSeq(e.kinds[n], 1, 40),
                       "two chains made the same choices")
SourceFails(e) ==
    Clause("C13.source", e.failed = << >>, <<"drawing from a shared random source failed", e.failed>>)
    \cup Clause("C13.source", e.failed # << >> \/ \A t \in 1..Len(e.got) : Len(e.got[t]) = e.want, <<"draws", e.got>>)
    \cup Clause("C13.sourceonce", e.distinct = 0 \/ (\A t, u \in 1..Len(e.got) : \A i \in 1..Len(e.got[t]), j \in 1..Len(e.got[u]) : (t = u /\ i = j) \/ e.got[t][i] # e.got[u][j]),
              <<"one draw was delivered twice", e.got>>)
TNext ==
    /\ MoreEvents
    /\ LET e == Ev IN
        CASE e.op = "begin" -> (cfg' = e /\ first' = Len(log) + 1 /\ UNCHANGED log /\ Advance({}))
          [] e.op = "found" -> (log' = Record(e) /\ UNCHANGED <<first, cfg>> /\ Advance(FoundFails(e)))
          [] e.op = "kinds" -> (UNCHANGED <<log, first, cfg>> /\ Advance(KindFails(e)))
          [] e.op = "source" -> (UNCHANGED <<log, first, cfg>> /\ Advance(SourceFails(e)))
          [] e.op = "out" -> (UNCHANGED <<log, first, cfg>> /\ Advance(OutFails(e)))
          [] e.op = "later" -> (UNCHANGED <<log, first, cfg>> /\ Advance(Clause("C13.apart", e.kept = 1, "using one returned model changed the specification or another result")))
          [] e.op = "error" -> (UNCHANGED <<log, first, cfg>> /\ Advance({<<"ANY.raise", e.what>>}))
TSpec == TInit /\ [][TNext]_vars
===============================================================================
