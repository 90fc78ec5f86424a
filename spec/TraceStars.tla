------------------------------ MODULE TraceStars ------------------------------
(* Recorded ratings.                                                       *)
EXTENDS Stars, Conf, TLC
CONSTANT Focus    \* "C22", "C23", "C24", "C30", "C32"
VARIABLES want, c, l
vars == <<want, c, l>>
Ev == Cases[c].ev
e  == Ev[l]

Init == c \in 1..NCases /\ l = 0 /\ want = <<>>
Is(op) == l < Len(Ev) /\ Ev[l+1].op = op /\ l' = l + 1 /\ UNCHANGED c

(* C22 *)
TrValue == /\ Is("value")
           /\ LET f == Ev[l+1] IN want' = <<Value(f.peaks, [reduced |-> f.reduced, weight |-> f.weight, scale |-> f.scale, lowest |-> f.base])>>
TrRate  == /\ Is("rate")
           /\ LET f == Ev[l+1] IN
              want' = IF f.n = 0 THEN <<Nothing>>
                      ELSE <<StarsOf(Value(f.aim, AimQ), Value(f.still, AimQ), Value(f.speed, SpeedQ),
                                     IF f.style.flashlight THEN Value(f.flash, FlashQ) ELSE Zero, f.style)>>
TrPeaks == /\ Is("peaks")
           /\ LET f == Ev[l+1]
                  p == f.peaks
                  ok == Len(p.aim) = Len(p.speed) /\ (f.style.flashlight => Len(p.flash) = Len(p.aim))
              IN want' = IF ok THEN <<[i \in 1..Len(p.aim) |-> SectionTotal(p.aim[i], p.speed[i], IF f.style.flashlight THEN p.flash[i] ELSE Zero, f.style)]>>
                         ELSE <<>>
(* C23: counts after each object. *)
RECURSIVE Counts(_, _)
Counts(n, os) == IF os = <<>> THEN <<>> ELSE <<Count(n, os[1])>> \o Counts(Count(n, os[1]), Tail(os))
TrCount == Is("count") /\ want' = Counts(NoCounts, Ev[l+1].os)
(* C24: what the calculations say of a prefix, the first time it is asked. *)
TrLengths == Is("lengths") /\ UNCHANGED want
TrPrefix == Is("prefix") /\ want' = Append(want, Ev[l+1].single)
(* C30, C32: nothing to predict. *)
TrGrow == Is("grow") /\ UNCHANGED want
TrRated == Is("rated") /\ UNCHANGED want
Done == l = Len(Ev) /\ UNCHANGED vars
Next == TrValue \/ TrRate \/ TrPeaks \/ TrCount \/ TrLengths \/ TrPrefix \/ TrGrow \/ TrRated \/ Done

N(what, exp, got) == Near(what, exp, got, D("1e-9"), D("1e-11"))
Stars(what, exp, got) ==
  /\ N(<<what, "aim">>, exp.aim, got.aim) /\ N(<<what, "speed">>, exp.speed, got.speed)
  /\ N(<<what, "flashlight">>, exp.flash, got.flash) /\ N(<<what, "slider factor">>, exp.slider, got.slider)
  /\ N(<<what, "total">>, exp.total, got.total)
Whole(what, exp, got) == Stars(what, exp.stars, got.stars) /\ Same(<<what, "counts">>, exp.counts, got.counts)
PeaksAgree(p, q) ==
  /\ NearSeq("aim peak", p.aim, q.aim, D("1e-9"), D("1e-11")) /\ NearSeq("speed peak", p.speed, q.speed, D("1e-9"), D("1e-11"))
  /\ NearSeq("flashlight peak", p.flash, q.flash, D("1e-9"), D("1e-11")) /\ NearSeq("total peak", p.total, q.total, D("1e-9"), D("1e-11"))
Up(what, a, b) == Holds(<<what, "falls as the map grows, from", FStr(a), "to", FStr(b)>>, b \succeq ((a ** D("0.999999999")) -- D("1e-11")))
Grown(a, b) == /\ Up("aim", a.aim, b.aim) /\ Up("speed", a.speed, b.speed) /\ Up("flashlight", a.flash, b.flash) /\ Up("total", a.total, b.total)
(* Peaks p of fewer objects, q of more: finished sections stay as they are, *)
(* the last one can only rise.                                             *)
PeaksGrown(what, p, q) ==
  /\ Holds(<<what, "sections never get fewer">>, Len(p) <= Len(q))
  /\ \A i \in 1..Len(p)-1 : N(<<what, "of a finished section">>, p[i], q[i])
  /\ p # <<>> => Up(what, p[Len(p)], q[Len(p)])
Sane(what, v) == Holds(<<what, "is finite and not negative:", FStr(v)>>, IsFinite(v) /\ v \succeq Zero)
SaneAll(what, vs) == \A i \in 1..Len(vs) : Sane(what, vs[i])
Conforms ==
  /\ StatusOk(Cases[c])
  /\ l > 0 => CASE e.op = "value" -> N("difficulty value", want[1], e.got) /\ N("difficulty value asked again", want[1], e.again)
                [] e.op = "rate" -> Stars("stars", want[1], e.stars)
                [] e.op = "peaks" -> Holds("peaks of all skills belong to the same sections", want # <<>>)
                                     /\ NearSeq("total peak", want[1], e.peaks.total, D("1e-9"), D("1e-11"))
                [] e.op = "count" ->
                     LET all == IF want = <<>> THEN NoCounts ELSE want[Len(want)] IN
                     /\ Same("counts", all, e.single) /\ Same("counts with peaks", all, e.peaked)
                     /\ Same("number of steps", Len(want), Len(e.steps))
                     /\ \A i \in 1..Len(want) : Same(<<"counts after object", i>>, want[i], e.steps[i])
                [] e.op = "lengths" -> Same("steps", e.n, e.steps) /\ Same("steps with peaks", e.n, e.stepsPeaked)
                [] e.op = "grow" ->
                     /\ \A i \in 2..Len(e.stars) : Grown(e.stars[i-1], e.stars[i])
                     /\ \A i \in 2..Len(e.peaks) :
                          /\ PeaksGrown("aim peak", e.peaks[i-1].aim, e.peaks[i].aim) /\ PeaksGrown("speed peak", e.peaks[i-1].speed, e.peaks[i].speed)
                          /\ PeaksGrown("flashlight peak", e.peaks[i-1].flash, e.peaks[i].flash)
                          /\ Holds("total peaks never get fewer", Len(e.peaks[i-1].total) <= Len(e.peaks[i].total))
                [] e.op = "rated" ->
                     /\ Sane("aim", e.stars.aim) /\ Sane("speed", e.stars.speed) /\ Sane("flashlight", e.stars.flash)
                     /\ Sane("slider factor", e.stars.slider) /\ Sane("total", e.stars.total)
                     /\ SaneAll("aim peak", e.peaks.aim) /\ SaneAll("speed peak", e.peaks.speed)
                     /\ SaneAll("flashlight peak", e.peaks.flash) /\ SaneAll("total peak", e.peaks.total)
                     /\ Holds("as many objects as circles, sliders and spinners", e.counts.objects = e.counts.circles + e.counts.sliders + e.counts.spinners)
                     /\ Holds("a combo for every object", e.counts.combo >= e.counts.objects + e.counts.sliders)
                     /\ \A i \in 1..Len(e.scores) : LET p == e.scores[i] IN
                          /\ Sane("aim points", p.aim) /\ Sane("speed points", p.speed) /\ Sane("accuracy points", p.acc)
                          /\ Sane("flashlight points", p.flash) /\ Sane("points", p.total)
                [] e.op = "prefix" ->
                     /\ Whole(<<"single with peaks of objects", e.n>>, e.single, e.peaked)
                     /\ \A i \in 1..Len(e.steps) : Whole(<<"step", e.n, IF i = 2 THEN "with peaks" ELSE "">>, e.single, e.steps[i])
                     /\ \A i \in 2..Len(e.peaks) : PeaksAgree(e.peaks[1], e.peaks[i])
=============================================================================
