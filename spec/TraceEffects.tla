---------------------------- MODULE TraceEffects ----------------------------
(* One map under selections with the same effect: the same ratings, peaks  *)
(* and performance points.                                                 *)
EXTENDS Effects, Conf, TLC
VARIABLES c, l
vars == <<c, l>>
Ev == Cases[c].ev
In == Cases[c].in
e  == Ev[l]

Init == c \in 1..NCases /\ l = 0
Is(op) == l < Len(Ev) /\ Ev[l+1].op = op /\ l' = l + 1 /\ UNCHANGED c
Under == Is("under")
Done == l = Len(Ev) /\ UNCHANGED vars
Next == Under \/ Done

SetOf(f) == Settings(In.hp, In.cs, In.od, In.ar, BitsToMods(f.mods), f.speed)
N(what, exp, got) == Near(what, exp, got, D("1e-9"), D("1e-11"))
Q(what, exp, got) == NearSeq(what, exp, got, D("1e-9"), D("1e-11"))
Rated(a, b) ==
  /\ N("aim", a.stars.aim, b.stars.aim) /\ N("speed", a.stars.speed, b.stars.speed) /\ N("flashlight", a.stars.flash, b.stars.flash)
  /\ N("slider factor", a.stars.slider, b.stars.slider) /\ N("total", a.stars.total, b.stars.total)
  /\ Same("counts", a.counts, b.counts)
  /\ Q("aim peak", a.peaks.aim, b.peaks.aim) /\ Q("speed peak", a.peaks.speed, b.peaks.speed)
  /\ Q("flashlight peak", a.peaks.flash, b.peaks.flash) /\ Q("total peak", a.peaks.total, b.peaks.total)
Scored(p, q) ==
  /\ N("aim points", p.aim, q.aim) /\ N("speed points", p.speed, q.speed) /\ N("accuracy points", p.acc, q.acc)
  /\ N("flashlight points", p.flash, q.flash) /\ N("points", p.total, q.total)
Conforms ==
  /\ StatusOk(Cases[c])
  /\ l > 1 =>
       /\ Same("effect", Effect(SetOf(Ev[1])), Effect(SetOf(e)))     \* (the driver's choice)
       /\ Rated(Ev[1], e)
       /\ \A i \in 1..l-1 : (ScoreEffect(SetOf(Ev[i])) = ScoreEffect(SetOf(e))) =>
            \A k \in 1..Len(e.scores) : Scored(Ev[i].scores[k], e.scores[k])
=============================================================================
