------------------------------ MODULE TraceScore ------------------------------
(* Recorded scores and what they are worth.                                *)
EXTENDS Score, ModRules, DifficultyRules, Conf, TLC
VARIABLES want, c, l
vars == <<want, c, l>>
Ev == Cases[c].ev
In == Cases[c].in
e  == Ev[l]
Mods == BitsToMods(In.mods)
Der == Derive(Settings(In.hp, In.cs, In.od, In.ar, Mods, In.speed))

Init == c \in 1..NCases /\ l = 0 /\ want = <<>>
Is(op) == l < Len(Ev) /\ Ev[l+1].op = op /\ l' = l + 1 /\ UNCHANGED c
TrScore == Is("score") /\ want' = <<PP(Ev[l+1].s, In.a, Der, Mods)>>
(* A play no better than the one before it.                                *)
NoBetter(s, t) == /\ s.combo <= t.combo /\ s.great <= t.great /\ s.ok >= t.ok /\ s.meh >= t.meh /\ s.miss >= t.miss
TrPlay == Is("play") /\ want' = <<>> /\ FullPlay(Ev[l+1].s, In.a) /\ (l > 0 => NoBetter(Ev[l+1].s, Ev[l].s))
Done == l = Len(Ev) /\ UNCHANGED vars
Next == TrScore \/ TrPlay \/ Done

Worth(what, p, q) ==
  /\ Near(<<what, "aim">>, p.aim, q.aim, D("1e-9"), D("1e-11")) /\ Near(<<what, "speed">>, p.speed, q.speed, D("1e-9"), D("1e-11"))
  /\ Near(<<what, "accuracy">>, p.acc, q.acc, D("1e-9"), D("1e-11")) /\ Near(<<what, "flashlight">>, p.flash, q.flash, D("1e-9"), D("1e-11"))
  /\ Near(<<what, "total">>, p.total, q.total, D("1e-9"), D("1e-11"))
Sane(what, v) == Holds(<<what, "is finite and not negative:", FStr(v)>>, IsFinite(v) /\ v \succeq Zero)
Not(what, v, w) == Holds(<<what, "rewards worse play:", FStr(w), "then", FStr(v)>>, v \preceq ((w ** D("1.000000000001")) ++ D("1e-12")))
Conforms ==
  /\ StatusOk(Cases[c])
  /\ l > 0 => CASE e.op = "score" ->
                     /\ \A i \in 1..Len(e.full) : Worth(<<"completed", e.s>>, e.full[i], e.got)
                     /\ Worth(e.s, want[1], e.got)
                     /\ Sane("total", e.got.total)
                [] e.op = "play" ->
                     LET v == e.got IN
                     /\ Sane("aim", v.aim) /\ Sane("speed", v.speed) /\ Sane("accuracy", v.acc) /\ Sane("flashlight", v.flash) /\ Sane("total", v.total)
                     /\ l > 1 => LET w == Ev[l-1].got IN
                          /\ Not("aim", v.aim, w.aim) /\ Not("speed", v.speed, w.speed) /\ Not("accuracy", v.acc, w.acc)
                          /\ Not("flashlight", v.flash, w.flash) /\ Not("total", v.total, w.total)
=============================================================================
