-------------------------- MODULE TraceDifficulty ---------------------------
EXTENDS Difficulty, Mods, Conf, TLC
VARIABLES c, l
vars == <<set, der, sel, c, l>>
Ev == Cases[c].ev
e  == Ev[l+1]

Init == /\ c \in 1..NCases
        /\ l = 0
        /\ sel = {}
        /\ LET i == Cases[c].in IN DiffInit(Fresh(i.hp, i.cs, i.od, i.ar))

Is(op) == l < Len(Ev) /\ e.op = op /\ l' = l + 1 /\ UNCHANGED c
Keep == UNCHANGED sel
TrHP    == Is("hp") /\ SetHP(e.val) /\ Keep
TrCS    == Is("cs") /\ SetCS(e.val) /\ Keep
TrOD    == Is("od") /\ SetOD(e.val) /\ Keep
TrAR    == Is("ar") /\ SetAR(e.val) /\ Keep
TrSpeed == Is("speed") /\ SetSpeed(e.val) /\ Keep
TrMods  == Is("mods") /\ sel' = BitsToMods(e.mods) /\ SetMods(sel')
TrLook  == Is("look") /\ UNCHANGED <<set, der, sel>>
Done    == l = Len(Ev) /\ UNCHANGED vars
Next == TrHP \/ TrCS \/ TrOD \/ TrAR \/ TrSpeed \/ TrMods \/ TrLook \/ Done

N(f, exp, got) == Near(f, exp, got, D("1e-9"), D("1e-9"))
Observed(o) ==
  /\ N("base hp", set.hp, o.hp) /\ N("base cs", set.cs, o.cs)
  /\ N("base od", set.od, o.od) /\ N("base ar", set.ar, o.ar)
  /\ Same("mods", set.mods, BitsToMods(o.mods))
  /\ N("circle radius", der.radius, o.radius)
  /\ N("preempt", der.preempt, o.preempt)
  /\ N("50 window", der.hit50, o.hit50)
  /\ N("100 window", der.hit100, o.hit100)
  /\ N("300 window", der.hit300, o.hit300)
  /\ N("effective health", der.hpmod, o.hpmod)
  /\ N("spinner ratio", der.spinner, o.spinner)
  /\ N("speed", der.speed, o.speed)
  /\ N("displayed AR", der.arreal, o.arreal)
  /\ N("displayed OD", der.odreal, o.odreal)
  /\ N("custom speed", set.speed, o.custom)
  /\ N("modded time of 1000", ModdedTime(D("1000"), set.mods, set.speed), o.t1000)
  /\ Same("HR or DT active", set.mods \cap {"HR", "DT"} # {}, o.active)
Conforms == /\ StatusOk(Cases[c])
            /\ l = 0 => Observed(Cases[c].in.obs)
            /\ l > 0 => Observed(Ev[l].obs)
=============================================================================
