----------------------------- MODULE TraceMods ------------------------------
(* Recorded walks over mod selections and recorded readings of texts.      *)
EXTENDS Mods, Conf, TLC, Float64
VARIABLES c, l
vars == <<sel, c, l>>
Ev == Cases[c].ev

Init == /\ ModsInit
        /\ c \in 1..NCases
        /\ l = 0

Is(op) == l < Len(Ev) /\ Ev[l+1].op = op /\ l' = l + 1 /\ UNCHANGED c

TrToggle == Is("toggle") /\ Toggle(Acronyms[Ev[l+1].bit + 1])
TrRead   == Is("read") /\ sel' = Read(Ev[l+1].chars)
Done == l = Len(Ev) /\ UNCHANGED vars
Next == TrToggle \/ TrRead \/ Done

(* What the code showed after the step is what the state determines.       *)
Observed(e) ==
  /\ Same("selection", sel, BitsToMods(e.bits))
  /\ Same("short form", Short(sel), e.short)
  /\ Same("full form", Full(sel), e.full)
  /\ Same("read back", Closure(sel), BitsToMods(e.back))
  /\ Same("compatible", Compatible(sel), e.compat)
  /\ Same("active", {Acronyms[i] : i \in {j \in 1..Len(Acronyms) : Acronyms[j] \in sel}}, BitsToMods(e.active))
  /\ Near("score multiplier", ScoreMultiplier(sel), e.mult, D("1e-12"), D("1e-12"))
Conforms == StatusOk(Cases[c]) /\ (l > 0 => Observed(Ev[l]))
=============================================================================
