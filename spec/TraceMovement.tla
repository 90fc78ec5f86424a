---------------------------- MODULE TraceMovement ----------------------------
(* Recorded objects as they appear under mods, the lazy cursor of sliders, *)
(* and the movements measured between them.                                *)
EXTENDS Movement, ModRules, Conf, TLC
CONSTANT Focus    \* "C16" or "C17"
VARIABLES before,   \* the last two objects before the latest
          der,      \* derived difficulty
          want,     \* what the specification says about the latest object
          c, l
vars == <<before, der, want, c, l>>
Ev == Cases[c].ev
In == Cases[c].in
e  == Ev[l]

Init == /\ c \in 1..NCases /\ l = 0 /\ before = <<>> /\ want = <<>>
        /\ der = Derive(Settings(In.hp, In.cs, In.od, In.ar, BitsToMods(In.mods), In.speed))
Is(op) == l < Len(Ev) /\ Ev[l+1].op = op /\ l' = l + 1 /\ UNCHANGED <<c, der>>
TrCount == Is("count") /\ UNCHANGED <<before, want>>
TrObject == /\ Is("object")
            /\ LET o == Ev[l+1].o
                   prev == IF l > 1 THEN Append(before, Ev[l].o) ELSE <<>>
               IN /\ before' = IF Len(prev) > 2 THEN Tail(prev) ELSE prev
                  /\ want' = CASE Focus = "C17" /\ SliderKind(o) -> Lazy(o, der.radius)
                               [] Focus = "C16" /\ prev # <<>> -> Movement(o, prev, der)
                               [] OTHER -> <<>>
Done == l = Len(Ev) /\ UNCHANGED vars
Next == TrCount \/ TrObject \/ Done

Abs == D("2e-3")
Rel == D("3e-6")
Px(what, exp, got) == Near(what, exp, got, Rel, Abs)
Ms(what, exp, got) == Near(what, exp, got, D("1e-11"), D("1e-9"))
(* Angles of very short ways are not well defined.                         *)
AngleSlack(o) ==
  LET n == Len(before)
      a == VLen(V1(before[n], before[n-1]))
      b == VLen(V2(o, before[n]))
      part(x) == IF FEq(x, Zero) THEN Zero ELSE D("1e-4") // x
  IN D("1e-3") ++ (part(a) ++ part(b))
Angle(o, exp, got) ==
  IF IsNaN(exp) THEN Holds(<<"an angle", FStr(got)>>, IsNaN(got))
  ELSE Near("angle", exp, got, Zero, AngleSlack(o))
Moves(o, m) ==
  /\ Ms("time since the last object", want.delta, m.delta) /\ Ms("strain time", want.strain, m.strain)
  /\ Ms("start", want.start, m.start) /\ Ms("end", want.end, m.end)
  /\ Px("jump distance", want.jump, m.jump) /\ Px("movement distance", want.move, m.move)
  /\ Px("travel distance", want.travel, m.travel)
  /\ Ms("travel time", want.travelTime, m.travelTime) /\ Ms("movement time", want.moveTime, m.moveTime)
  /\ Angle(o, want.angle, m.angle)
Lazies(z) ==
  /\ Ms("slider time", want.time, z.time)
  /\ Px("lazy travel distance", want.moved, z.moved)
  /\ VNear("lazy end", want.at, z.at, Zero, D("5e-3"))
Conforms == /\ StatusOk(Cases[c])
            /\ (l > 0 /\ e.op = "count" /\ Focus = "C16") => Same("number of movements", e.want, e.got)
            /\ (l > 1 /\ want # <<>> /\ Focus = "C16") => Moves(e.o, e.move) /\ Same("object moved to", TRUE, e.base)
            /\ (l > 1 /\ want # <<>> /\ Focus = "C17") => Lazies(e.o.lazy)
=============================================================================
