------------------------------- MODULE Skills -------------------------------
(***************************************************************************)
(* What an object contributes to the aim, speed and flashlight strain.     *)
(*                                                                         *)
(* A measured object is [kind, strain, start, jump, move, moveTime,        *)
(* travel, travelTime, angle, head, tail] (see Movement); hist is the      *)
(* sequence of remembered objects, the latest last.                        *)
(***************************************************************************)
EXTENDS Strain, DifficultyRules, Sequences

Ago(hist, i) == hist[Len(hist) + 1 - i]   \* i = 1: the previous object
IsSpin(o) == o.kind = "spinner"
IsSlid(o) == o.kind = "slider"
HalfPi == Pi // Two
Sin2(x) == Square(FSin(HalfPi ** x))      \* a smooth step for x from 0 to 1
Hi(o, p) == FMax(o.strain, p.strain)
Lo(o, p) == FMin(o.strain, p.strain)

-----------------------------------------------------------------------------
(* Aim.                                                                    *)
Wide(angle) ==
  LET a == Clamp(angle, Pi // D("6"), (D("5") // D("6")) ** Pi)
  IN Square(FSin(D("0.75") ** (a -- (Pi // D("6")))))
Acute(angle) == One -- Wide(angle)
Cube(x) == x ** (x ** x)

Velocity1(o, before, sliders) ==
  LET plain == o.jump // o.strain
  IN IF IsSlid(before) /\ sliders
     THEN FMax(plain, (o.move // o.moveTime) ++ (o.travel // o.travelTime))
     ELSE plain
SteadyRhythm(o, p) == Hi(o, p) \prec (D("1.25") ** Lo(o, p))
Angled(o) == ~IsNaN(o.angle)

WideBonus(o, p, base) ==
  LET w == Wide(o.angle) IN (w ** base) ** (One -- FMin(w, Cube(Wide(p.angle))))
AcuteBonus(o, p, pp, base) ==
  IF o.strain \succ D("100") THEN Zero
  ELSE LET a == ((Acute(o.angle) ** Acute(p.angle)) ** FMin(base, D("125") // o.strain))
                ** (Sin2(FMin(One, (D("100") -- o.strain) // D("25")))
                    ** Sin2((Clamp(o.jump, D("50"), D("100")) -- D("50")) // D("50")))
       IN a ** (Half ++ (Half ** (One -- FMin(a, Cube(Acute(pp.angle))))))

ChangeBonus(o, p, v, pv) ==
  IF FEq(FMax(v, pv), Zero) THEN Zero
  ELSE LET prev == (p.jump ++ p.travel) // p.strain
           curr == (o.jump ++ o.travel) // o.strain
           diff == FAbs(prev -- curr)
           ratio == Sin2(diff // FMax(prev, curr))
           overlap == FMin(D("125") // Lo(o, p), diff)
           apart == diff ** Sin2(FMin(One, FMin(o.jump, p.jump) // D("100")))
       IN (FMax(overlap, apart) ** ratio) ** Square(Lo(o, p) // Hi(o, p))

AimAdds(o, hist) == ~IsSpin(o) /\ Len(hist) >= 2 /\ ~IsSpin(Ago(hist, 1))
AimValue(o, hist, sliders) ==
  IF ~AimAdds(o, hist) THEN Zero
  ELSE LET p == Ago(hist, 1)
           pp == Ago(hist, 2)
           v == Velocity1(o, p, sliders)
           pv == Velocity1(p, pp, sliders)
           steady == SteadyRhythm(o, p) /\ Angled(o) /\ Angled(p) /\ Angled(pp)
           wide == IF steady THEN WideBonus(o, p, FMin(v, pv)) ELSE Zero
           acute == IF steady THEN AcuteBonus(o, p, pp, FMin(v, pv)) ELSE Zero
           slide == IF sliders /\ ~FEq(o.travelTime, Zero) THEN o.travel // o.travelTime ELSE Zero
       IN (v ++ FMax(acute ** Two, (wide ** D("1.5")) ++ (ChangeBonus(o, p, v, pv) ** D("0.75"))))
          ++ (slide ** D("1.5"))

-----------------------------------------------------------------------------
(* Speed.  window: the full 300 window under the speed.                    *)
SpeedWindow(der) == (der.hit300 // der.speed) ** Two
TapTime(o, hist, window) ==
  LET t == IF hist # <<>> /\ o.strain \prec window /\ Ago(hist, 1).strain \succ o.strain
           THEN Lerp(Ago(hist, 1).strain, o.strain, o.strain // window) ELSE o.strain
  IN t // Clamp((t // window) // D("0.93"), D("0.92"), One)
SpeedValue(o, hist, der) ==
  IF IsSpin(o) THEN Zero
  ELSE LET t == TapTime(o, hist, SpeedWindow(der))
           far == FMin(D("125"), o.travel ++ o.jump)
           fast == IF t \prec D("75") THEN One ++ (D("0.75") ** Square((D("75") -- t) // D("40"))) ELSE One
       IN (fast ** (One ++ FPow(far // D("125"), D("3.5")))) // t

(* Rhythm: walking through the remembered objects from the oldest, counting *)
(* islands of equal intervals.  A walk is [on, ratio, size, last, sum].    *)
Slower(a, b) == (a ** D("1.25")) \prec b
Faster(a, b) == a \succ (D("1.25") ** b)
RhythmRatio(a, b) ==   \* of intervals a then b
  One ++ (D("6") ** FMin(Half, Square(FSin(Pi // (FMin(a, b) // FMax(a, b))))))
Noticed(a, b, great) ==
  LET g == great ** D("0.6") IN FMin(One, FMax(Zero, FAbs(a -- b) -- g) // g)
Odd(n) == n % 2 = 1
RhythmStep(w, now, hist, i, great) ==   \* i: position in hist of the later interval
  LET o == hist[i]  p == hist[i-1]  q == hist[i-2]
      fade == FMax(Zero, D("5000") -- (now.start -- o.start)) // D("5000")
      weight == FMin(I(i - 1) // I(Len(hist)), fade)
      ratio == Noticed(p.strain, o.strain, great) ** RhythmRatio(p.strain, o.strain)
      same == ~Faster(p.strain, o.strain) /\ ~Slower(p.strain, o.strain)
      cut == (((IF IsSlid(o) THEN D("0.125") ELSE One) ** (IF IsSlid(p) THEN D("0.25") ELSE One))
              ** ((IF w.last = w.size THEN D("0.25") ELSE One) ** (IF Odd(w.last) = Odd(w.size) THEN Half ELSE One)))
             ** (IF q.strain \succ (p.strain ++ D("10")) /\ p.strain \succ (o.strain ++ D("10")) THEN D("0.125") ELSE One)
      now2 == ratio ** cut
  IN IF FEq(fade, Zero) THEN w
     ELSE IF w.on
     THEN IF same THEN [w EXCEPT !.size = IF @ < 7 THEN @ + 1 ELSE @]
          ELSE [ on |-> ~Slower(p.strain, o.strain), ratio |-> now2, size |-> 1, last |-> w.size,
                 sum |-> w.sum ++ ((FSqrt(now2 ** w.ratio) ** weight)
                                   ** ((FSqrt(I(4 + w.size)) // Two) ** (FSqrt(I(4 + w.last)) // Two))) ]
     ELSE IF Faster(p.strain, o.strain) THEN [w EXCEPT !.on = TRUE, !.ratio = ratio, !.size = 1]
     ELSE w
RhythmStart == [on |-> FALSE, ratio |-> Zero, size |-> 1, last |-> 0, sum |-> Zero]
RECURSIVE RhythmWalk(_, _, _, _, _)
RhythmWalk(w, now, hist, i, great) ==
  IF i > Len(hist) THEN w ELSE RhythmWalk(RhythmStep(w, now, hist, i, great), now, hist, i + 1, great)
Rhythm(o, hist, der) ==
  IF IsSpin(o) THEN Zero
  ELSE FSqrt(D("4") ++ (RhythmWalk(RhythmStart, o, hist, 3, der.hit300 // der.speed).sum ** D("0.75"))) // Two

-----------------------------------------------------------------------------
(* Flashlight.                                                             *)
FlashScale(der) == D("52") // der.radius
RECURSIVE FlashSum(_, _, _, _, _)
FlashSum(o, hist, der, i, since) ==
  IF i > Len(hist) THEN Zero
  ELSE LET p == Ago(hist, i)
           t == since ++ p.strain
           stack == FMin(One, (p.jump // FlashScale(der)) // D("25"))
           far == VDst(o.head, p.tail)
       IN IF IsSpin(p) THEN FlashSum(o, hist, der, i + 1, since)
          ELSE (((FPow(D("0.8"), I(i - 1)) ** stack) ** (FlashScale(der) ** far)) // t)
               ++ FlashSum(o, hist, der, i + 1, t)
FlashValue(o, hist, der) ==
  IF IsSpin(o) THEN Zero
  ELSE LET small == IF hist # <<>> /\ ~IsSpin(Ago(hist, 1))
                    THEN FMin(One, VDst(o.head, Ago(hist, 1).tail) // D("75")) ELSE One
       IN Square(small ** FlashSum(o, hist, der, 1, Zero))
=============================================================================
