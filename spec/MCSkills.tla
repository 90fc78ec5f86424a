------------------------------ MODULE MCSkills ------------------------------
(* Every short history of objects with a few intervals, kinds, distances   *)
(* and angles: sanity of the three skills' contributions.                  *)
EXTENDS Skills, TLC, Json, FiniteSets
CONSTANTS Depth, Intervals, Kinds, Jumps, Angles, Emit
VARIABLES hist, gen
vars == <<hist, gen>>

der == Derive(Fresh(D("5"), D("4"), D("8"), D("9")))
Place == <<D("256"), D("192")>>
Object(kind, dt, jump, angle, t) ==
  LET far == hist # <<>> /\ hist[Len(hist)].kind = "slider" /\ kind # "spinner" IN
  [ kind |-> kind, strain |-> FMax(I(dt), D("25")), delta |-> I(dt), start |-> t, jump |-> I(jump), move |-> I(jump),
    moveTime |-> IF far THEN D("25") ELSE I(dt), travel |-> IF far THEN D("80") ELSE Zero, travelTime |-> IF far THEN D("60") ELSE Zero,
    angle |-> IF angle < 0 THEN FNaN ELSE (I(angle) ** Pi) // D("180"),
    head |-> <<S(D("100") ++ I(jump)), D("100")>>, tail |-> <<D("100"), D("100")>> ]
Time == IF hist = <<>> THEN Zero ELSE hist[Len(hist)].start
Init == hist = <<>> /\ gen = <<>>
Next == /\ Len(hist) < Depth
        /\ \E k \in Kinds, dt \in Intervals, j \in Jumps, a \in Angles :
             /\ hist' = Append(hist, Object(k, dt, j, a, Time ++ I(dt)))
             /\ gen' = Append(gen, <<k, ToString(dt), ToString(j), ToString(a)>>)

N == Len(hist)
Cur == hist[N]
Prev == SubSeq(hist, 1, N - 1)
Spins == \E i \in 1..N : IsSpin(hist[i])
NonNegative == N > 0 =>
  /\ AimValue(Cur, Prev, TRUE) \succeq AimValue(Cur, Prev, FALSE)
  /\ AimValue(Cur, Prev, FALSE) \succeq Zero /\ IsFinite(AimValue(Cur, Prev, TRUE))
  /\ SpeedValue(Cur, Prev, der) \succeq Zero
  /\ FlashValue(Cur, Prev, der) \succeq Zero /\ IsFinite(FlashValue(Cur, Prev, der))
SpinnersGiveNothing == (N > 0 /\ IsSpin(Cur)) =>
  /\ FEq(AimValue(Cur, Prev, TRUE), Zero) /\ FEq(SpeedValue(Cur, Prev, der), Zero) /\ FEq(FlashValue(Cur, Prev, der), Zero)
  /\ FEq(Rhythm(Cur, Prev, der), Zero)
(* Without sliders, sliders do not count.                                  *)
NoSliders == (N > 0 /\ \A i \in 1..N : ~IsSlid(hist[i])) => FEq(AimValue(Cur, Prev, TRUE), AimValue(Cur, Prev, FALSE))
(* Equal intervals have no rhythm; a rhythm counts at least one.           *)
EvenRhythm == (N > 0 /\ ~IsSpin(Cur)) => Rhythm(Cur, Prev, der) \succeq One
Even == (N > 0 /\ ~IsSpin(Cur) /\ \A i \in 1..N : FEq(hist[i].strain, hist[1].strain)) => FEq(Rhythm(Cur, Prev, der), One)
(* Tapping faster is harder, all else equal.                               *)
Faster2 == (N > 0 /\ ~IsSpin(Cur)) => \A dt \in Intervals :
  I(dt) \prec Cur.strain => SpeedValue([Cur EXCEPT !.strain = FMax(I(dt), D("25"))], <<>>, der) \succeq SpeedValue(Cur, <<>>, der)
(* Objects at the same place are all visible at once.                      *)
Visible == (N > 1 /\ VEq(Cur.head, Prev[N-1].tail) /\ ~IsSpin(Prev[N-1])) => FEq(FlashValue(Cur, Prev, der), Zero)
Emitted == (Emit /\ N = Depth) => PrintT("GEN " \o ToJson(gen))
=============================================================================
