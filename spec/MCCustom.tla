------------------------------- MODULE MCCustom -------------------------------
(* Every history of small custom chains; properties are stated over the history alone.   *)
EXTENDS BartCustom, TLC, Json
CONSTANTS MaxBurn, MaxSamp, MaxSteps, Kinds, Msgs, EmitOn
VARIABLES st, hist
mvars == <<st, hist>>
MInit == \E b \in 0..MaxBurn, s \in 0..MaxSamp, f \in {<<1, 1>>, <<1, 2>>}, p, a \in BOOLEAN :
            /\ st = Start([burn |-> b, samp |-> s, tn |-> f[1], td |-> f[2], wantp |-> p, wanta |-> a])
            /\ hist = << >>
InSweep == Cardinality({i \in 1..Len(hist) : hist[i][1] = "offer" /\ ~\E j \in i..Len(hist) : hist[j][1] = "begin"})
Events == {<<"new">>, <<"begin">>, <<"run">>, <<"over">>, <<"out">>}
          \cup (IF InSweep < MaxSteps THEN {<<"offer", k>> : k \in Kinds} ELSE {})
          \cup {<<"log", k, m>> : k \in Kinds, m \in Msgs}
          \cup {<<"pred", 0, m>> : m \in {0, 1}} \cup {<<"model", 0, m>> : m \in {0, 2}}
\* the order the caller can rely on is fixed; logging at once or at the end of the sweep is not: the model logs at once
Prompt(e) == st.ran # << >> => e[1] = "log"
MNext == \E e \in Events : Can(st, e) /\ Prompt(e) /\ st' = Step(st, e) /\ hist' = Append(hist, e)
MSpec == MInit /\ [][MNext]_mvars

Name(i) == hist[i][1]
At(n) == {i \in 1..Len(hist) : Name(i) = n}
Count(n) == Cardinality(At(n))
Ended == Len(hist) > 0 /\ Name(Len(hist)) = "out"
\* every step is run once, at once: nothing else happens between offering and running it
OneAtATime == \A i \in At("offer") : i < Len(hist) => Name(i + 1) = "run"
RunOnce == \A i \in At("run") : Name(i - 1) = "offer"
\* every result reaches the logger, burn-in or not
AllLogged == Ended => Count("log") = Count("run")
OneLogger == Ended => Count("new") = 1
Sweeps == Ended => Count("begin") = st.conf.burn + st.conf.samp
\* what a sweep logged: between its begin and the next
From(i) == IF \E j \in At("begin") : j > i THEN CHOOSE j \in At("begin") : j > i /\ \A k \in At("begin") : k > i => k >= j ELSE Len(hist) + 1
Said(i, k, S) == Cardinality({j \in i..(From(i) - 1) : j \in At("log") /\ hist[j][2] = k /\ hist[j][3] \in S})
NthKept(r) == CHOOSE s \in 0..st.conf.samp : Kept(st.conf, s) /\ Cardinality({q \in 0..s : Kept(st.conf, q)}) = r
NthBegin(n) == CHOOSE i \in At("begin") : Cardinality({j \in At("begin") : j <= i}) = n
Shares == Ended => \A r \in 1..Len(st.accs) :
            LET i == NthBegin(st.conf.burn + NthKept(r) + 1) IN
            \A k \in Kinds : LET all == Said(i, k, Msgs \ {0}) yes == Said(i, k, {m \in Msgs : m % 2 = 1}) IN
                 IF all = 0 THEN \A x \in st.accs[r] : x[1] # k ELSE <<k, yes, all>> \in st.accs[r]
NoHoles == \A i \in 1..Len(st.models) : st.models[i] # None
Stored == Ended =>
    /\ Len(st.models) = Cardinality({i \in At("model") : hist[i][3] # None})
    /\ Len(st.preds) = Cardinality({i \in At("pred") : hist[i][3] # None})
    /\ Count("model") = Cardinality({s \in 0..(st.conf.samp - 1) : Kept(st.conf, s)})
    /\ Count("pred") = IF st.conf.wantp THEN Count("model") ELSE 0
    /\ Len(st.accs) = IF st.conf.wanta THEN Count("model") ELSE 0
Emit == EmitOn /\ Ended => PrintT("@T" \o ToJson([c |-> st.conf, h |-> hist]))
===============================================================================
