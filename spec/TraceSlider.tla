----------------------------- MODULE TraceSlider -----------------------------
(* Recorded beatmaps: timing lines, then objects with what they are in     *)
(* time.                                                                   *)
EXTENDS Slider, Conf, TLC
CONSTANT Focus    \* "C10" or "C11"
VARIABLES pts, fin, s, c, l
vars == <<pts, fin, s, c, l>>
Ev == Cases[c].ev
In == Cases[c].in
e  == Ev[l]

None == <<>>
Init == c \in 1..NCases /\ l = 0 /\ pts = <<>> /\ fin = <<>> /\ s = None
Is(op) == l < Len(Ev) /\ Ev[l+1].op = op /\ l' = l + 1 /\ UNCHANGED c
LineFields(t) == LET f == Split(t, ",") IN [i \in 1..Len(f) |-> Trim(f[i])]
Slides(f) == LET n == IntOf(f[7]) IN IF n < 1 THEN 1 ELSE n
TrPoint  == Is("point") /\ pts' = Append(pts, TimingPoint(LineFields(Ev[l+1].line))) /\ UNCHANGED <<fin, s>>
TrEnd    == Is("end") /\ fin' = Finalized(pts) /\ UNCHANGED <<pts, s>>
Resolved(f) ==
  [ path |-> SliderPath(f), head |-> <<ToS(f[1]), ToS(f[2])>>, start |-> ToF(f[3]), slides |-> Slides(f),
    declared |-> ToF(f[8]), point |-> ActiveAt(fin, ToF(f[3])), mult |-> In.mult, rate |-> In.rate ]
TrSlider == Is("slider") /\ s' = Resolved(LineFields(Ev[l+1].line)) /\ UNCHANGED <<pts, fin>>
TrOther  == Is("still") /\ s' = None /\ UNCHANGED <<pts, fin>>
Done     == l = Len(Ev) /\ UNCHANGED vars
Next == TrPoint \/ TrEnd \/ TrSlider \/ TrOther \/ Done

(* Lengths are single precision sums; times inherit their error.           *)
Px == D("2e-2") ++ ((s.path.natural ** D("1e-5")) ++ (FMax(Zero, s.path.stretch -- D("4")) ** D("2e-4")))
Ms == D("1e-6") ++ (((Px ** I(s.slides)) // SliderVelocity(s)) ** D("1000"))
(* The tick nearest the end of the path may fall on either side of the     *)
(* limit if it is within the error of it.                                  *)
Unsure == LET last == s.path.length -- (SliderVelocity(s) ** D("0.01")) IN
  Ticks(s) /\ LET d == TickDistances(s)
                  next == IF d = <<>> THEN TickEvery(s) ELSE d[Len(d)] ++ TickEvery(s)
              IN \/ FAbs(next -- last) \preceq Px
                 \/ d # <<>> /\ FAbs(d[Len(d)] -- last) \preceq Px
Scoring(o) ==
  LET n == Len(o.score)
      rev == SelectSeq(o.score, LAMBDA p : p[2])
      times == [i \in 1..n |-> o.score[i][1]]
      want == RepeatTimes(s)
      expected == ScoreTimes(s)
  IN /\ Near("end time", EndTime(s), o.end, D("1e-9"), Ms)
     /\ Near("duration", EndTime(s) -- s.start, o.duration, D("1e-9"), Ms)
     /\ \A i \in 1..n-1 : Holds(<<"scoring points in order", i>>, times[i] \preceq times[i+1])
     /\ Same("number of repeats", Len(want), Len(rev))
     /\ \A i \in 1..Len(want) : Near(<<"repeat", i>>, want[i], rev[i][1], D("1e-9"), Ms)
     /\ IF Unsure THEN TRUE
        ELSE /\ Same("number of scoring points", Len(expected), n)
             /\ \A i \in 1..n : Near(<<"scoring point", i>>, expected[i], times[i], D("1e-9"), Ms)
(* A tiny difference in length shifts the ball after many slides, so the   *)
(* slides are counted between the slider's own start and end.              *)
Ball(o) ==
  LET slack == Px ** D("5") IN
  /\ Near("end time", EndTime(s), o.end, D("1e-9"), Ms)
  /\ \A i \in 1..Len(o.at) : VNear(<<"ball at", FStr(o.at[i][1])>>, BallUntil(s, o.end, o.at[i][1]), o.at[i][2], Zero, slack)
  /\ VNear("start", s.head, o.first, Zero, D("1e-5"))
  /\ VNear("end of ball", EndOfBall(s), o.last, Zero, slack)
Still(o) ==
  LET f == LineFields(o.line)
      p == <<ToS(f[1]), ToS(f[2])>>
  IN /\ Focus = "C10" => Near("end time", IF o.kind = "spinner" THEN ToF(f[6]) ELSE ToF(f[3]), o.end, Zero, Zero)
     /\ Focus = "C11" => /\ \A i \in 1..Len(o.at) : Same(<<"position at", FStr(o.at[i][1])>>, p, o.at[i][2])
                         /\ Same("start", p, o.first) /\ Same("end", p, o.last)
Conforms == /\ StatusOk(Cases[c])
            /\ (l > 0 /\ e.op = "slider" /\ Focus = "C10") => Scoring(e)
            /\ (l > 0 /\ e.op = "slider" /\ Focus = "C11") => Ball(e)
            /\ (l > 0 /\ e.op = "still") => Still(e)
=============================================================================
