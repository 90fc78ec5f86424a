---------------------------- MODULE TraceRating -----------------------------
(* Whole maps rated object by object, and scored: the objects as they      *)
(* appear under the mods, and the code's attributes after each.            *)
EXTENDS Rating, ModRules, Conf, TLC
VARIABLES g, der, c, l
vars == <<g, der, c, l>>
Ev == Cases[c].ev
In == Cases[c].in
e  == Ev[l]
Mods == BitsToMods(In.mods)
Style == [relax |-> "RX" \in Mods, flashlight |-> "FL" \in Mods]

Init == /\ c \in 1..NCases /\ l = 0 /\ g = RatingStart
        /\ der = Derive(Settings(In.hp, In.cs, In.od, In.ar, Mods, In.speed))
Is(op) == l < Len(Ev) /\ Ev[l+1].op = op /\ l' = l + 1 /\ UNCHANGED <<c, der>>
TrObject == Is("object") /\ g' = Take(g, Ev[l+1].o, der)
TrScore == Is("score") /\ UNCHANGED g
Done == l = Len(Ev) /\ UNCHANGED vars
Next == TrObject \/ TrScore \/ Done

N(what, exp, got) == Near(what, exp, got, D("1e-5"), D("3e-6"))
(* A ratio is as uncertain as what it is divided by is small.              *)
Ratio(what, exp, got, by) == Near(what, exp, got, D("1e-5"), D("2e-6") ++ (IF by \succ Zero THEN D("8e-6") // by ELSE Zero))
Conforms ==
  /\ StatusOk(Cases[c])
  /\ l > 0 => CASE e.op = "object" ->
                     LET s == StarsNow(g, Style) IN
                     /\ Same(<<"counts after", l>>, g.rate.counts, e.counts)
                     /\ N(<<"aim after", l>>, s.aim, e.stars.aim) /\ N(<<"speed after", l>>, s.speed, e.stars.speed)
                     /\ N(<<"flashlight after", l>>, s.flash, e.stars.flash) /\ Ratio(<<"slider factor after", l>>, s.slider, e.stars.slider, s.aim)
                     /\ N(<<"stars after", l>>, s.total, e.stars.total)
                [] e.op = "score" ->
                     LET p == PP(e.s, AttributesNow(g, Style), der, Mods)
                         M(what, exp, got) == Near(<<what, e.s>>, exp, got, D("1e-4"), D("1e-4")) IN
                     /\ M("aim points", p.aim, e.got.aim) /\ M("speed points", p.speed, e.got.speed) /\ M("accuracy points", p.acc, e.got.acc)
                     /\ M("flashlight points", p.flash, e.got.flash) /\ M("points", p.total, e.got.total)
=============================================================================
