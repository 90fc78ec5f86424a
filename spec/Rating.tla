------------------------------- MODULE Rating -------------------------------
(***************************************************************************)
(* A whole rating in progress: objects as they appear under the mods come  *)
(* in one by one; each is followed lazily if it is a slider, measured from *)
(* the objects before it, contributes to the skills, and is counted.  At   *)
(* any moment the rating has stars, and a score has performance points.    *)
(*                                                                         *)
(* An object is what Movement takes, without the lazy cursor.              *)
(***************************************************************************)
EXTENDS Movement, Skills, Stars, Score

RatingStart == [rate |-> RateStart, seen |-> <<>>, hist |-> <<>>]

LOCAL Last(s, n) == IF Len(s) > n THEN SubSeq(s, Len(s) - n + 1, Len(s)) ELSE s
Followed(o, der) ==
  IF SliderKind(o)
  THEN [kind |-> o.kind, start |-> o.start, end |-> o.end, head |-> o.head, tail |-> o.tail, lazy |-> Lazy(o, der.radius)]
  ELSE [kind |-> o.kind, start |-> o.start, end |-> o.end, head |-> o.head, tail |-> o.tail]
(* What the skills know of it.                                             *)
Told(o, m) ==
  [ kind |-> o.kind, head |-> o.head, tail |-> o.tail, strain |-> m.strain, start |-> m.start, delta |-> m.delta, jump |-> m.jump,
    move |-> m.move, moveTime |-> m.moveTime, travel |-> m.travel, travelTime |-> m.travelTime, angle |-> m.angle ]
Contributions(o, hist, der) ==
  [ aim |-> AimValue(o, Last(hist, Aim.history), TRUE), still |-> AimValue(o, Last(hist, Aim.history), FALSE),
    speed |-> SpeedValue(o, hist, der), flash |-> FlashValue(o, Last(hist, Flash.history), der) ]

Take(g, o, der) ==
  LET f == Followed(o, der)
      counted == [kind |-> o.kind, points |-> IF SliderKind(o) THEN Len(o.points) ELSE 0]
  IN IF g.seen = <<>> THEN [g EXCEPT !.seen = <<f>>, !.rate = RateFirst(@, counted)]
     ELSE LET m == Movement(f, g.seen, der)
              t == Told(o, m)
          IN [ seen |-> Last(Append(g.seen, f), 2),
               hist |-> Last(Append(g.hist, t), Speed.history),
               rate |-> RateNext(g.rate, counted, m.start, m.delta, Contributions(t, g.hist, der), Rhythm(t, g.hist, der)) ]
StarsNow(g, style) == RateStars(g.rate, style)
(* The attributes a score is judged by.                                    *)
AttributesNow(g, style) ==
  LET s == StarsNow(g, style)  n == g.rate.counts
  IN [ objects |-> n.objects, circles |-> n.circles, sliders |-> n.sliders, spinners |-> n.spinners, combo |-> n.combo,
       aim |-> s.aim, speed |-> s.speed, flash |-> s.flash, slider |-> s.slider, total |-> s.total ]
=============================================================================
