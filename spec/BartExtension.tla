---------------------------- MODULE BartExtension -----------------------------
(* The residual extensions (bartpy.extensions): a base model plus BART on what the base  *)
(* model leaves.  An extension has its specification par (base model specification and    *)
(* BART parameters), and after a fit the data each of its two halves was last fitted on.  *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES ext,     \* sequence of [par, base, bart, resid, brk]: base, bart = << >> or <<d, par>>; resid: what BART was given; brk: a later fit broke off
          pc       \* which extension is between the two halves of its fit (0: none)
xvars == <<ext, pc>>
New(p) == [par |-> p, base |-> << >>, bart |-> << >>, resid |-> << >>, brk |-> 0]
XInit(p) == ext = << New(p) >> /\ pc = 0
FitBase(e, d) == /\ pc = 0 /\ e \in 1..Len(ext)
                 /\ ext' = [ext EXCEPT ![e].base = <<d, ext[e].par.base>>]
                 /\ pc' = e
\* BART is fitted on the target minus the fitted values of the base model just fitted
FitBart == /\ pc # 0
           /\ LET x == ext[pc] IN ext' = [ext EXCEPT ![pc].bart = <<x.base[1], x.par>>, ![pc].resid = <<"minus", x.base[1], x.base>>, ![pc].brk = 0]
           /\ pc' = 0
\* a fit breaks off after its base half: the halves no longer match, so nothing may be predicted from them
\* (an implementation that only replaces both halves together keeps the old pair: also allowed)
BreakOff == pc # 0 /\ ext' = [ext EXCEPT ![pc].brk = 1] /\ pc' = 0
FitBreaks(e) == pc = 0 /\ e \in 1..Len(ext) /\ ext' = [ext EXCEPT ![e].brk = 1] /\ UNCHANGED pc
Fit(e, d) == /\ pc = 0 /\ e \in 1..Len(ext)
             /\ ext' = [ext EXCEPT ![e].base = <<d, ext[e].par.base>>, ![e].bart = <<d, ext[e].par>>, ![e].resid = <<"minus", d, <<d, ext[e].par.base>>>>, ![e].brk = 0]
             /\ UNCHANGED pc
Set(e, p) == pc = 0 /\ e \in 1..Len(ext) /\ ext' = [ext EXCEPT ![e].par = p] /\ UNCHANGED pc
CloneOf(e) == pc = 0 /\ e \in 1..Len(ext) /\ ext' = Append(ext, New(ext[e].par)) /\ UNCHANGED pc
\* a second extension built from the very parameter objects of the first, its base model among them
TwinOf(e) == CloneOf(e)
\* a deep copy, in memory or through a file
CopyOf(e) == pc = 0 /\ e \in 1..Len(ext) /\ ext' = Append(ext, ext[e]) /\ UNCHANGED pc
\* the caller overwrites, in place, the arrays an extension was fitted on: no fitted extension notices
CallerOverwrites(d) == UNCHANGED <<ext, pc>>
(* the prediction of an extension: base half plus BART half, in original units *)
AddSeq(a, b) == [r \in 1..Len(a) |-> a[r] + b[r]]
SubSeqs(a, b) == [r \in 1..Len(a) |-> a[r] - b[r]]
===============================================================================
