------------------------------ MODULE MCCompose -------------------------------
(* Every history of Steps operations on at most MaxE estimators with two parameters; the    *)
(* histories are printed and played with real pipelines.                                      *)
EXTENDS BartCompose, TLC, Json
CONSTANTS Steps, MaxE
VARIABLE hist
mvars == <<cvars, hist>>
All == 1..3
F2 == << {1}, {2, 3} >>
Do(op) == hist' = Append(hist, op)
MInit == CInit(<<1, 2>>) /\ hist = << >>
MNext == /\ Len(hist) < Steps
         /\ \E h \in 1..Len(hs) :
              \/ Len(hs) < MaxE /\ Clone(h) /\ Do(<<"clone", h>>)
              \/ Len(hs) < MaxE /\ Copy(h) /\ Do(<<"copy", h>>)
              \/ \E n \in {1, 2}, v \in {1, 2} : Set(h, n, v) /\ Do(<<"set", h, n, v>>)
              \/ \E d \in {1, 2} : Fit(h, IF d = 1 THEN All ELSE {1, 2}) /\ Do(<<"fit", h, d>>)
              \/ Cross(h, F2, All) /\ Do(<<"cross", h>>)
              \/ Len(hs) < MaxE /\ \E n \in {1, 2}, b \in {1, 2} : Search(h, n, <<1, 2>>, F2, All, b) /\ Do(<<"search", h, n>>)
MSpec == MInit /\ [][MNext]_mvars
Frame == [][Elsewhere]_mvars
Emit == Len(hist) = Steps => PrintT("@T" \o ToJson(hist))
===============================================================================
