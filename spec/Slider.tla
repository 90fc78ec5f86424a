------------------------------- MODULE Slider -------------------------------
(***************************************************************************)
(* Sliders in time: how long they last, when they score, and where the     *)
(* slider ball is.                                                         *)
(***************************************************************************)
EXTENDS Path, Timing, FiniteSets

(* The path a slider line declares.                                        *)
BodyPoints(f) ==
  LET parts == Split(f[6], "|")
      pairs == SelectSeq([i \in 1..Len(parts)-1 |-> Split(parts[i+1], ":")], LAMBDA p : Len(p) >= 2)
  IN <<<<ToS(f[1]), ToS(f[2])>>>> \o [i \in 1..Len(pairs) |-> <<ToS(pairs[i][1]), ToS(pairs[i][2])>>]
BodyType(f) == Split(f[6], "|")[1]
SliderPath(f) == PathOf(BodyType(f), BodyPoints(f), ToF(f[8]))

(* s: [path, head, start, slides, declared, point, mult, rate]             *)
SliderVelocity(s) == Velocity(s.point, s.mult, s.rate)
Span(s) == (s.path.length ** D("1000")) // SliderVelocity(s)
EndTime(s) == s.start ++ (((s.path.length ** D("1000")) ** I(s.slides)) // SliderVelocity(s))

(* Distances along the path at which ticks are: every multiple of the tick *)
(* distance that is more than 10 ms of travel before the end.              *)
TickEvery(s) == LET d == TickDistance(s.point, s.mult, s.rate)
                IN IF s.path.length \succ Zero /\ d \succ s.declared THEN s.declared ELSE d
Ticks(s) == TickEvery(s) \succ Zero /\ ~IsNaN(s.point.beat)
RECURSIVE TicksFrom(_, _, _)
TicksFrom(d, every, last) == IF d \prec last THEN <<d>> \o TicksFrom(d ++ every, every, last) ELSE <<>>
TickDistances(s) ==
  IF Ticks(s) THEN TicksFrom(TickEvery(s), TickEvery(s), s.path.length -- (SliderVelocity(s) ** D("0.01"))) ELSE <<>>

SpanStart(s, k) == s.start ++ (I(k) ** Span(s))
TickTimes(s, k) ==   \* of slide k = 0, 1, ...
  LET d == TickDistances(s)
      far(x) == IF k % 2 = 0 THEN x // s.path.length ELSE One -- (x // s.path.length)
  IN {SpanStart(s, k) ++ (far(d[i]) ** Span(s)) : i \in 1..Len(d)}
RepeatTimes(s) == [k \in 1..(s.slides - 1) |-> SpanStart(s, k-1) ++ Span(s)]
TailTime(s) == FMax(s.start ++ ((EndTime(s) -- s.start) // Two), EndTime(s) -- D("36"))

Ascending(ts) == LET down == FSortDown(SetToSeq(ts)) IN [i \in 1..Len(down) |-> down[Len(down) + 1 - i]]
AllTicks(s) == FoldLeft(LAMBDA a, k : a \o Ascending(TickTimes(s, k)), <<>>, [k \in 1..s.slides |-> k-1])
(* All scoring times, ascending (multiplicity kept).                       *)
ScoreTimes(s) ==
  LET all == AllTicks(s) \o RepeatTimes(s) \o <<TailTime(s)>>
      down == FSortDown(all)
  IN [i \in 1..Len(down) |-> down[Len(down) + 1 - i]]

(* The ball goes back and forth; a slider without duration stays.          *)
Progress(s, end, t) ==
  LET x == FMod((Clamp(t, s.start, end) -- s.start) // ((end -- s.start) // I(s.slides)), Two)
  IN S(IF x \succeq One THEN Two -- x ELSE x)
BallUntil(s, end, t) == IF FEq(s.start, end) THEN s.head ELSE PathPoint(s.path, Progress(s, end, t))
BallAt(s, t) == BallUntil(s, EndTime(s), t)
EndOfBall(s) == IF FEq(s.start, EndTime(s)) THEN s.head
                ELSE IF s.slides % 2 = 1 THEN PathPoint(s.path, One) ELSE PathPoint(s.path, Zero)
=============================================================================
