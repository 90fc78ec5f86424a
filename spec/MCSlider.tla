------------------------------ MODULE MCSlider ------------------------------
(* A ball rolling along a straight slider in small steps, turning at the   *)
(* ends, passing ticks by counting distance: every combination of length,  *)
(* slides, tick rate and timing point from small sets.                     *)
EXTENDS Slider, TLC, Json
CONSTANTS Lengths, Slides, Emit
VARIABLES s,        \* the slider
          roll,     \* distance rolled so far, over all slides
          passed    \* scoring points passed: <<"tick"|"repeat"|"tail">>
vars == <<s, roll, passed>>

Lines == {"0,500", "0,400,4,1,0,60,0", "0,NaN", "0,-50", "0,-200,4,1,1,5,0,0", "0,100", "0,3000"}
HeadPos == <<D("20"), D("30")>>
Body(n) == <<HeadPos, <<D("20") ++ I(n), D("30")>>>>
Make(n, k, line, mult, rate) ==
  [ path |-> PathOf("L", Body(n), I(n)), head |-> HeadPos, start |-> D("1000"), slides |-> k, declared |-> I(n),
    point |-> TimingPoint(Split(line, ",")), line |-> line, mult |-> D(mult), rate |-> D(rate) ]
Init == /\ \E n \in Lengths, k \in Slides, line \in Lines, mult \in {"1", "1.4"}, rate \in {"1", "2", "0.5"} :
              s = Make(n, k, line, mult, rate)
        /\ roll = 0 /\ passed = <<>>

(* Rolling one pixel at a time (lengths and tick distances are compared in  *)
(* pixels): at each position the ball passes the marks that lie there.     *)
Len1 == ToInt(s.path.length)
Whole == Len1 * s.slides
Away(p) == LET k == p \div Len1 r == (p % Len1) IN IF k % 2 = 0 THEN r ELSE Len1 - r   \* from the head
TickAt(p) == \* a multiple of the tick distance in (Away-1, Away], not within 10 ms of the end
  LET d == TickEvery(s) a == I(Away(p)) IN
  Ticks(s) /\ \E m \in 1..Len1 : LET x == I(m) ** d IN
       /\ x \preceq a /\ x \succ (a -- One) /\ x \prec (s.path.length -- (SliderVelocity(s) ** D("0.01")))
Roll == /\ roll < Whole
        /\ roll' = roll + 1
        /\ passed' = passed \o (IF TickAt(roll') /\ roll' % Len1 # 0 THEN <<"tick">> ELSE <<>>)
                            \o (IF roll' % Len1 = 0 /\ roll' < Whole THEN <<"repeat">> ELSE <<>>)
                            \o (IF roll' = Whole THEN <<"tail">> ELSE <<>>)
        /\ UNCHANGED s
Next == Roll
Count(k) == Cardinality({i \in 1..Len(passed) : passed[i] = k})

(* Scoring times agree with what the ball passes.                          *)
Complete == roll = Whole =>
  /\ Len(ScoreTimes(s)) = Len(passed)
  /\ Len(RepeatTimes(s)) = Count("repeat")
  /\ Len(AllTicks(s)) = Count("tick")
  /\ Count("tick") % s.slides = 0
(* The ball is where it has rolled to.                                     *)
BallHere ==
  LET t == s.start ++ ((I(roll) // s.path.length) ** Span(s))
  IN VClose(BallAt(s, t), <<HeadPos[1] ++ I(Away(roll)), HeadPos[2]>>, D("1e-4"), D("1e-2"))
EndsThere == roll = Whole => VClose(EndOfBall(s), BallAt(s, EndTime(s)), D("1e-4"), D("1e-2"))
Before == roll = 0 => VClose(BallAt(s, D("-100")), HeadPos, Zero, D("1e-3"))
After == roll = Whole => BallAt(s, EndTime(s) ++ D("100")) = BallAt(s, EndTime(s))
(* Everything scores within the slider, in order.                          *)
InTime == roll = 0 => LET st == ScoreTimes(s) IN
  /\ \A i \in 1..Len(st)-1 : st[i] \preceq st[i+1]
  /\ s.start \preceq st[1] /\ st[Len(st)] \preceq (EndTime(s) ++ D("1e-6"))
AtStart == roll = 0
View == <<s, roll>>
Emitted == (Emit /\ roll = 0) => PrintT("GEN " \o ToJson([len |-> Len1, slides |-> s.slides, line |-> s.line, mult |-> FStr(s.mult), rate |-> FStr(s.rate)]))
=============================================================================
