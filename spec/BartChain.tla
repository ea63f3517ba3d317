------------------------------ MODULE BartChain -------------------------------
(* One chain (bartpy.samplers.modelsampler.ModelSampler.samples): burn-in sweeps,    *)
(* sampling sweeps, thinning and what is recorded.  The model state after sweep s     *)
(* is represented by s itself; thin is the fraction tn/td.                             *)
EXTENDS Integers, Sequences, FiniteSets
CeilDiv(a, b) == (a + b - 1) \div b
NKeep(c) == CeilDiv(c.samp * c.tn, c.td)
KeepSweep(c, ss) == CeilDiv((ss + 1) * c.tn, c.td) > CeilDiv(ss * c.tn, c.td)

VARIABLES cfg,     \* [burn, samp, tn, td, wantp, wanta]
          sweeps,  \* sweeps run
          models, preds, accs      \* records: the sweep each one shows
cvars == <<cfg, sweeps, models, preds, accs>>
CInit(c) == cfg = c /\ sweeps = 0 /\ models = << >> /\ preds = << >> /\ accs = << >>
Sweep ==
    /\ sweeps < cfg.burn + cfg.samp
    /\ sweeps' = sweeps + 1
    /\ LET kept == sweeps >= cfg.burn /\ KeepSweep(cfg, sweeps - cfg.burn)
           app(s) == IF kept THEN Append(s, sweeps + 1) ELSE s
       IN  /\ models' = app(models)
           /\ preds' = IF cfg.wantp THEN app(preds) ELSE preds
           /\ accs' = IF cfg.wanta THEN app(accs) ELSE accs
    /\ UNCHANGED cfg

Gaps(r) == {r[i + 1] - r[i] : i \in 1..(Len(r) - 1)}
EvenlySpaced(r) == \A a, b \in Gaps(r) : a - b <= 1
\* C09
NoBurnIn == \A i \in 1..Len(models) : models[i] > cfg.burn
FirstKept == sweeps > cfg.burn => Len(models) > 0 /\ models[1] = cfg.burn + 1
Even == EvenlySpaced(models) /\ \A g \in Gaps(models) : g > 0
Aligned == /\ preds = IF cfg.wantp THEN models ELSE << >>
           /\ accs = IF cfg.wanta THEN models ELSE << >>
AtEnd == sweeps = cfg.burn + cfg.samp => Len(models) = NKeep(cfg)
===============================================================================
