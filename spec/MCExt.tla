--------------------------------- MODULE MCExt --------------------------------
(* All short histories of two extensions on two data sets, fits in two halves; finished  *)
(* histories are printed and played against both real extensions.                          *)
EXTENDS BartExtension, TLC, Json
CONSTANTS MaxHist, MaxExt, Shared      \* Shared: extensions fit the base model object they were given
VARIABLES hist
P0 == [base |-> 1, nt |-> 2]
MInit == XInit(P0) /\ hist = << >>
Changes(p) == {[p EXCEPT !.base = 3 - @], [p EXCEPT !.nt = 5 - @]}
FitShared(e, d) == /\ pc = 0 /\ e \in 1..Len(ext)
                   /\ ext' = [i \in 1..Len(ext) |-> IF i = e \/ (ext[i].par.base = ext[e].par.base /\ ext[i].base # << >>) THEN [ext[i] EXCEPT !.base = <<d, ext[e].par.base>>] ELSE ext[i]]
                   /\ pc' = e
H(x) == hist' = Append(hist, x)
MNext == \/ FitBart /\ UNCHANGED hist
         \/ BreakOff /\ hist' = [hist EXCEPT ![Len(hist)][1] = "broken"]
         \/ /\ Len(hist) < MaxHist
            /\ \E e \in 1..Len(ext) :
                 \/ \E d \in 1..2 : (IF Shared THEN FitShared(e, d) ELSE FitBase(e, d)) /\ H(<<"fit", e, d>>)
                 \/ \E p \in Changes(ext[e].par) : Set(e, p) /\ H(<<"set", e, p>>)
                 \/ Len(ext) < MaxExt /\ CloneOf(e) /\ H(<<"clone", e>>)
                 \/ Len(ext) < MaxExt /\ TwinOf(e) /\ H(<<"twin", e>>)
                 \/ Len(ext) < MaxExt /\ CopyOf(e) /\ H(<<"copy", e>>)
                 \/ (ext[e].bart # << >> \/ ext[e].brk = 1) /\ pc = 0 /\ UNCHANGED xvars /\ H(<<"predict", e>>)
MSpec == MInit /\ [][MNext]_<<xvars, hist>>
MView == <<xvars, Len(hist), IF hist = << >> THEN << >> ELSE hist[Len(hist)]>>
\* between fits both halves come from the same data and BART got the base half's residuals
HalvesAgree == \A e \in 1..Len(ext) : (pc # e /\ ext[e].bart # << >> /\ ext[e].brk = 0) =>
                   (ext[e].bart[1] = ext[e].base[1] /\ ext[e].resid = <<"minus", ext[e].base[1], ext[e].base>> /\ ext[e].bart[2].base = ext[e].base[2])
LastFitOnly == \A e \in 1..Len(ext) : LET S == {i \in 1..Len(hist) : hist[i][1] = "fit" /\ hist[i][2] = e} IN
                   (pc # e /\ S # {} /\ ext[e].brk = 0) => ext[e].bart[1] = hist[CHOOSE i \in S : \A j \in S : j <= i][3]
ClonesKeepSpec == [][(Len(ext') > Len(ext) /\ hist'[Len(hist')][1] \in {"clone", "twin"}) => ext'[Len(ext')] = New(ext[hist'[Len(hist')][2]].par)]_<<xvars, hist>>
EmitTransitions == PrintT("@T" \o ToJson(hist'))
===============================================================================
