------------------------------- MODULE MCScore -------------------------------
(* Every full play of small maps under many mod selections, reached from   *)
(* the perfect one by making it worse step by step.                        *)
EXTENDS Score, ModRules, DifficultyRules, TLC, Json
CONSTANTS Maps,      \* as digits: circles, sliders, spinners, scoring points
          Selections, ODs, ARs, Emit
VARIABLES s, was, a, mods, der
vars == <<s, was, a, mods, der>>

Digits(n) == <<n \div 1000, (n \div 100) % 10, (n \div 10) % 10, n % 10>>
Attr(m) == [ circles |-> m[1], sliders |-> m[2], spinners |-> m[3], objects |-> m[1] + m[2] + m[3], combo |-> m[1] + m[2] + m[3] + m[4],
             aim |-> D("2.7"), speed |-> D("2.1"), flash |-> D("1.5"), slider |-> IF m[2] > 0 THEN D("0.95") ELSE One ]
Perfect == [combo |-> FullCombo(a), great |-> a.objects, ok |-> 0, meh |-> 0, miss |-> 0]
Init == /\ a \in {Attr(Digits(m)) : m \in Maps} /\ mods \in Selections
        /\ \E od \in ODs, ar \in ARs : der = Derive(Settings(D("5"), D("4"), I(od), I(ar), mods, One))
        /\ s = Perfect /\ was = Perfect
Next == /\ s' \in Worse(s) /\ was' = s /\ UNCHANGED <<a, mods, der>>

P(x) == PP(x, a, der, mods)
Sane(v) == IsFinite(v) /\ v \succeq Zero
Good == FullPlay(s, a) /\ LET p == P(s) IN Sane(p.aim) /\ Sane(p.speed) /\ Sane(p.acc) /\ Sane(p.flash) /\ Sane(p.total)
NotMore(x, y) == x \preceq (y ** D("1.000000000001"))
Monotone == LET p == P(s)  q == P(was) IN
  NotMore(p.aim, q.aim) /\ NotMore(p.speed, q.speed) /\ NotMore(p.acc, q.acc) /\ NotMore(p.flash, q.flash) /\ NotMore(p.total, q.total)
Ruled == LET p == P(s) IN ("RX" \in mods => FEq(p.acc, Zero)) /\ ("FL" \notin mods => FEq(p.flash, Zero))
Explicit ==
  /\ P([s EXCEPT !.great = -1]) = P(s)
  /\ s.combo = FullCombo(a) => P([s EXCEPT !.combo = -1]) = P(s)
Missed == LET z == Completed(s, a) IN
  /\ z.gone >= s.miss /\ (z.gone <= z.hits \/ z.hits = 0)
  /\ a.sliders = 0 => z.gone = s.miss
  /\ s.combo = FullCombo(a) => z.gone = s.miss
  /\ z.acc \succeq Zero /\ z.acc \preceq One
  /\ FEq(z.acc, One) <=> s.great = a.objects /\ a.objects > 0
Emitted == Emit => PrintT("GEN " \o ToJson(<<a.circles, a.sliders, a.spinners, a.combo, s.combo, s.great, s.ok, s.meh, s.miss>>))
=============================================================================
