------------------------------- MODULE MCStars -------------------------------
(* Every short sequence of objects, their gaps and contributions, under    *)
(* every style of rating.                                                  *)
EXTENDS Stars, TLC, FiniteSets
CONSTANTS Depth, Kinds, Gaps, Adds, Styles
VARIABLES r, os, prev, style
vars == <<r, os, prev, style>>

Init == /\ r = RateStart /\ os = <<>> /\ prev = RateStart
        /\ style \in {[relax |-> "relax" \in s, flashlight |-> "flashlight" \in s] : s \in Styles}
Obj(k) == [kind |-> k, points |-> IF k = "slider" THEN 2 ELSE 0]
Next == /\ Len(os) < Depth /\ UNCHANGED style /\ prev' = r
        /\ \E k \in Kinds, g \in Gaps, a \in Adds :
             /\ os' = Append(os, Obj(k))
             /\ r' = IF os = <<>> THEN RateFirst(r, Obj(k))
                     ELSE RateNext(r, Obj(k), r.aim.time ++ I(g), I(g),
                                   IF k = "spinner" THEN [aim |-> Zero, still |-> Zero, speed |-> Zero, flash |-> Zero]
                                   ELSE [aim |-> I(a), still |-> I(a) // (IF k = "slider" THEN Two ELSE One), speed |-> I(a) // I(g + 1), flash |-> I(a)],
                                   IF k = "spinner" THEN Zero ELSE One)

N == Len(os)
Num(k) == Cardinality({i \in 1..N : os[i].kind = k})
Counted == /\ r.counts.objects = N /\ r.counts.circles = Num("circle") /\ r.counts.sliders = Num("slider")
           /\ r.counts.spinners = Num("spinner") /\ r.counts.combo = N + (2 * Num("slider"))
           /\ r.counts = CountAll(NoCounts, os)
Now == RateStars(r, style)
Was == RateStars(prev, style)
Sound == N > 0 =>
  /\ IsFinite(Now.total) /\ Now.total \succeq Zero /\ Now.aim \succeq Zero
  /\ Now.slider \preceq One /\ Now.slider \succeq Zero
  /\ style.relax => FEq(Now.speed, Zero)
  /\ ~style.flashlight => FEq(Now.flash, Zero)
(* More objects never make a map easier.                                   *)
Grows == N > 1 =>
  /\ Now.aim \succeq (Was.aim ** D("0.999999999")) /\ Now.speed \succeq (Was.speed ** D("0.999999999"))
  /\ Now.flash \succeq (Was.flash ** D("0.999999999")) /\ Now.total \succeq (Was.total ** D("0.999999999"))
(* Relax and the lack of Flashlight take stars away, and only those.       *)
Styled == N > 0 =>
  LET all == RateStars(r, [relax |-> FALSE, flashlight |-> TRUE]) IN
  /\ Now.total \preceq (all.total ** D("1.000000001"))
  /\ Now.aim = all.aim /\ Now.slider = all.slider
  /\ style = [relax |-> FALSE, flashlight |-> TRUE] => Now = all
(* The sections of all skills are the same ones.                           *)
Aligned == Len(Peaks(r.aim)) = Len(Peaks(r.speed)) /\ Len(Peaks(r.aim)) = Len(Peaks(r.flash)) /\ Len(Peaks(r.aim)) = Len(Peaks(r.still))
=============================================================================
