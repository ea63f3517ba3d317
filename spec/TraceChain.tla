------------------------------ MODULE TraceChain ------------------------------
(* Recorded chains: the driver sees every sweep from the tree sampler's slot; each   *)
(* sweep ends with a noise value that names it, a prediction and acceptances.         *)
EXTENDS BartChain, TraceLib
VARIABLES seen        \* per chain the sweeps so far: [s: noise name, p: prediction, a: share of accepted moves 10^-6]
vars == <<cvars, seen, lvars>>
C == Tr.cfg
TInit == LInit /\ seen = << >> /\ CInit([burn |-> C.burn, samp |-> C.samp, tn |-> C.tn, td |-> C.td, wantp |-> C.wantp = 1, wanta |-> C.wanta = 1])
NearV(a, b) == Len(a) = Len(b) /\ \A r \in 1..Len(a) : Near(a[r], b[r], Tr.tol)

\* records of chain c (m: noise names, mp: predictions of the stored models, p: stored predictions, a: stored acceptances)
ChainFails(c, o) ==
    LET S == seen[c]
        K == Len(o.m)
        at(i) == IF \E j \in 1..Len(S) : S[j].s = o.m[i] THEN CHOOSE j \in 1..Len(S) : S[j].s = o.m[i] ELSE 0
        ix == [i \in 1..K |-> at(i)]
        known == \A i \in 1..K : ix[i] # 0
    IN  Clause("C09.sweeps", Len(S) = C.burn + C.samp, <<"chain", c, "ran", Len(S), "sweeps instead of", C.burn + C.samp>>)
        \cup Clause("C09.count", K = NKeep(cfg), <<"chain", c, "kept", K, "instead of", NKeep(cfg)>>)
        \cup Clause("C09.state", known, <<"chain", c, "records a state no sweep ended with", ix>>)
        \cup (IF ~known \/ K = 0 THEN {} ELSE
                Clause("C09.burnin", \A i \in 1..K : ix[i] > C.burn, <<"chain", c, ix>>)
                \cup Clause("C09.first", ix[1] = C.burn + 1, <<"chain", c, ix>>)
                \cup Clause("C09.spacing", (\A i \in 1..(K - 1) : ix[i] < ix[i + 1]) /\ EvenlySpaced(ix), <<"chain", c, ix>>)
                \cup Clause("C09.model", \A i \in 1..K : NearV(o.mp[i], S[ix[i]].p), <<"chain", c, "stored model predicts something else than its sweep">>)
                \cup (IF C.wantp = 1 THEN
                        Clause("C09.predictions", Len(o.p) = K /\ \A i \in 1..K : NearV(o.p[i], S[ix[i]].p), <<"chain", c, "stored predictions", Len(o.p), "of", K>>)
                      ELSE Clause("C09.nopredictions", Len(o.p) = 0, Len(o.p)))
                \cup (IF C.wanta = 1 THEN
                        Clause("C09.acceptance", Len(o.a) = K /\ \A i \in 1..K : Near(o.a[i], S[ix[i]].a, 2), <<"chain", c, "stored", o.a, "sweeps", [i \in 1..K |-> S[ix[i]].a]>>)
                      ELSE Clause("C09.noacceptance", Len(o.a) = 0, Len(o.a))))
OutFails(e) ==
    Clause("C09.chains", Len(e.chains) = Len(seen), <<Len(e.chains), "record groups of", Len(seen), "chains">>)
    \cup Clause("C09.total", e.total = NKeep(cfg) * C.chains /\ Len(seen) = C.chains, <<"records", e.total, "chains run", Len(seen)>>)
    \cup UNION {ChainFails(c, e.chains[c]) : c \in 1..(IF Len(e.chains) < Len(seen) THEN Len(e.chains) ELSE Len(seen))}
TNext ==
    /\ MoreEvents
    /\ UNCHANGED cvars
    /\ LET e == Ev IN
        CASE e.op = "chain" -> (seen' = Append(seen, << >>) /\ Advance({}))
          [] e.op = "sweep" -> (seen' = [seen EXCEPT ![Len(seen)] = Append(@, [s |-> e.s, p |-> e.p, a |-> e.a])] /\
                                Advance(Clause("C09.partsweep", e.n = C.nt, <<"a sweep with", e.n, "tree updates">>)))
          [] e.op = "out" -> (UNCHANGED seen /\ Advance(OutFails(e)))
          [] e.op = "error" -> (UNCHANGED seen /\ Advance({<<"ANY.raise", e.what>>}))
TSpec == TInit /\ [][TNext]_vars
===============================================================================
