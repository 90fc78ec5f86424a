---------------------------- MODULE TraceStacking ----------------------------
(* Recorded beatmaps: their objects as parsed, then heights and positions  *)
(* under mods.                                                             *)
EXTENDS Stacking, ModRules, Conf, TLC
CONSTANT Focus    \* "C12" or "C13"
VARIABLES hts,    \* expected heights by stance: none, EZ, HR
          c, l
vars == <<hts, c, l>>
Ev == Cases[c].ev
In == Cases[c].in
e  == Ev[l]

Init == c \in 1..NCases /\ l = 0 /\ hts = <<>>
Is(op) == l < Len(Ev) /\ Ev[l+1].op = op /\ l' = l + 1 /\ UNCHANGED c
Under(mods) == Settings(In.hp, In.cs, In.od, In.ar, mods, One)
Stances == <<{}, {"EZ"}, {"HR"}>>
(* The window is rounded down; next to a whole number either will do.      *)
Windows(mods) ==
  LET x == Derive(Under(mods)).preempt ** In.leniency
  IN {FFloor(x -- D("1e-7")), FFloor(x ++ D("1e-7"))}
Possible(mods, os) == {Heights(In.version, os, w) : w \in Windows(mods)}
TrStack == /\ Is("objects")
           /\ hts' = IF Focus = "C12" THEN [k \in 1..3 |-> Possible(Stances[k], Ev[l+1].os)] ELSE hts
TrLook == Is("height") /\ UNCHANGED hts
TrPos  == Is("positions") /\ UNCHANGED hts
Done   == l = Len(Ev) /\ UNCHANGED vars
Next == TrStack \/ TrLook \/ TrPos \/ Done

HeightsOk(f) ==
  LET k == CHOOSE k \in 1..3 : Stances[k] = Stance(BitsToMods(f.mods))
  IN IF f.h \in hts[k] THEN TRUE
     ELSE Same(<<"stack heights under", Stances[k]>>, CHOOSE h \in hts[k] : TRUE, f.h)
(* f: [k, mods, h, raw, seen] with raw and seen lists of positions          *)
PositionsOk(f) ==
  LET mods == Stance(BitsToMods(f.mods))
      o == Ev[1].os[f.k]
      radius == Derive(Under(mods)).radius
      h == IF IsSpinner(o) THEN 0 ELSE f.h
  IN /\ Len(f.raw) = Len(f.seen)
     /\ \A i \in 1..Len(f.raw) :
          VNear(<<"object", f.k, "height", f.h, "under", mods, "position", i>>, Appears(f.raw[i], h, radius, mods), f.seen[i], Zero, D("1e-3"))
Conforms == /\ StatusOk(Cases[c])
            /\ (l > 0 /\ e.op = "height" /\ Focus = "C12") => HeightsOk(e)
            /\ (l > 0 /\ e.op = "positions" /\ Focus = "C13") => PositionsOk(e)
=============================================================================
