----------------------------- MODULE TraceSkills -----------------------------
(* Recorded objects as the skills see them, and the strains after each.    *)
EXTENDS Skills, ModRules, Conf, TLC
CONSTANT Focus    \* "C18" (sections), "C19" (aim), "C20" (speed), "C21" (flashlight)
VARIABLES hist,   \* all objects before the latest, as far as any skill remembers
          sts,    \* strain states: aim, aim without sliders, speed, flashlight
          rhythm, der, c, l
vars == <<hist, sts, rhythm, der, c, l>>
Ev == Cases[c].ev
In == Cases[c].in
e  == Ev[l]

Init == /\ c \in 1..NCases /\ l = 0 /\ hist = <<>> /\ rhythm = Zero
        /\ sts = <<StrainStart, StrainStart, StrainStart, StrainStart>>
        /\ der = Derive(Settings(In.hp, In.cs, In.od, In.ar, BitsToMods(In.mods), In.speed))
Is(op) == l < Len(Ev) /\ Ev[l+1].op = op /\ l' = l + 1 /\ UNCHANGED <<c, der>>

Known(k, h) == IF Len(h) > k.history THEN SubSeq(h, Len(h) - k.history + 1, Len(h)) ELSE h
Grow(n, k, o, add, bonus) == [sts EXCEPT ![n] = Feel(@, k, o.start, o.delta, add, bonus)]
(* The strain observed, section by section.                                *)
Follow(st, k, o, strain, bonus) ==
  [Feel(st, k, o.start, o.delta, Zero, bonus) EXCEPT !.strain = strain, !.level = strain ** bonus, !.peak = FMax(Opened(st, k, o.start).peak, strain ** bonus)]
TrObject ==
  /\ Is("object")
  /\ LET o == Ev[l+1].o
         h == IF l = 0 THEN <<>> ELSE Known(Speed, Append(hist, Ev[l].o))
         f == Ev[l+1]
     IN /\ hist' = h
        /\ CASE Focus = "C18" ->
                  /\ sts' = <<Follow(sts[1], Aim, o, f.aim, One), Follow(sts[2], Aim, o, f.still, One),
                              Follow(sts[3], Speed, o, f.speed, f.rhythm), Follow(sts[4], Flash, o, f.flash, One)>>
                  /\ UNCHANGED rhythm
             [] Focus = "C19" ->
                  /\ sts' = [sts EXCEPT ![1] = Feel(@, Aim, o.start, o.delta, AimValue(o, Known(Aim, h), TRUE), One),
                                        ![2] = Feel(@, Aim, o.start, o.delta, AimValue(o, Known(Aim, h), FALSE), One)]
                  /\ UNCHANGED rhythm
             [] Focus = "C20" ->
                  /\ rhythm' = Rhythm(o, h, der)
                  /\ sts' = Grow(3, Speed, o, SpeedValue(o, h, der), rhythm')
             [] Focus = "C21" -> sts' = Grow(4, Flash, o, FlashValue(o, Known(Flash, h), der), One) /\ UNCHANGED rhythm
Done == l = Len(Ev) /\ UNCHANGED vars
Next == TrObject \/ Done

N(what, exp, got) == Near(what, exp, got, D("1e-8"), D("1e-10"))
Decayed(n, k, was, is) ==
  LET left == was ** Decay(k, e.o.delta) IN
  /\ Holds(<<"strain", n, "only decays between objects: left", FStr(left), "now", FStr(is)>>, is \succeq (left ** D("0.999999999")))
  /\ IsSpin(e.o) => N(<<"strain after a spinner", n>>, left, is)
Names == <<"aim", "aim without sliders", "speed", "flashlight">>
(* The highest strain of every section, when asked.                        *)
PeaksOf(n, f) == f.peaks # <<>> => NearSeq(<<Names[n], "peak">>, Peaks(sts[n]), f.peaks[n], IF n = 4 THEN D("1e-6") ELSE D("1e-8"), D("1e-10"))
Sections(f) ==
  /\ l > 1 => LET p == Ev[l-1] IN
       /\ Decayed("aim", Aim, p.aim, f.aim) /\ Decayed("aim without sliders", Aim, p.still, f.still)
       /\ Decayed("speed", Speed, p.speed, f.speed) /\ Decayed("flashlight", Flash, p.flash, f.flash)
  /\ \A n \in 1..4 : PeaksOf(n, f)
Conforms ==
  /\ StatusOk(Cases[c])
  /\ l > 0 => CASE Focus = "C18" -> Sections(e)
                [] Focus = "C19" -> N("aim strain", sts[1].strain, e.aim) /\ N("aim strain without sliders", sts[2].strain, e.still) /\ PeaksOf(1, e) /\ PeaksOf(2, e)
                [] Focus = "C20" -> N("speed strain", sts[3].strain, e.speed) /\ N("rhythm", rhythm, e.rhythm) /\ PeaksOf(3, e)
                [] Focus = "C21" -> Near("flashlight strain", sts[4].strain, e.flash, D("1e-6"), D("1e-10")) /\ PeaksOf(4, e)
=============================================================================
