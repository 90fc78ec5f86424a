------------------------------- MODULE Stars -------------------------------
(***************************************************************************)
(* From strains to ratings.  A rating in progress counts the objects and   *)
(* keeps a strain state per skill; at any moment it can be asked for the   *)
(* attributes of the objects so far, or for the peaks.                     *)
(*                                                                         *)
(* style: [relax, flashlight], what the mods change about rating.          *)
(***************************************************************************)
EXTENDS Strain

Scaling == D("0.0675")
Rating(value) == FSqrt(value) ** Scaling
Worth(stars) == LET x == (D("5") ** FMax(One, stars // Scaling)) -- D("4") IN (x ** (x ** x)) // D("100000")
FlashWorth(stars) == Square(stars) ** D("25")
Together(a, b, c) == FPow(FPow(a, D("1.1")) ++ (FPow(b, D("1.1")) ++ FPow(c, D("1.1"))), One // D("1.1"))
TotalOf(aim, speed, flash, style) ==
  LET base == Together(Worth(aim), Worth(IF style.relax THEN Zero ELSE speed),
                       IF style.flashlight THEN FlashWorth(flash) ELSE Zero)
  IN IF base \succ D("0.00001")
     THEN (FCbrt(D("1.12")) ** D("0.027")) ** (FCbrt((D("100000") // FPow(Two, One // D("1.1"))) ** base) ++ D("4"))
     ELSE Zero

(* Of the difficulty values of the skills.                                 *)
StarsOf(aim, still, speed, flash, style) ==
  [ aim    |-> Rating(aim),
    speed  |-> IF style.relax THEN Zero ELSE Rating(speed),
    flash  |-> IF style.flashlight THEN Rating(flash) ELSE Zero,
    slider |-> IF Rating(aim) \succ D("0.00001") THEN Rating(still) // Rating(aim) ELSE One,
    total  |-> TotalOf(Rating(aim), Rating(speed), Rating(flash), style) ]
SectionTotal(aim, speed, flash, style) == StarsOf(aim, aim, speed, flash, style).total

-----------------------------------------------------------------------------
(* Objects: [kind, points] with the number of scoring points of sliders.   *)
NoCounts == [objects |-> 0, circles |-> 0, sliders |-> 0, spinners |-> 0, combo |-> 0]
Count(n, o) ==
  [ objects  |-> n.objects + 1,
    circles  |-> n.circles + (IF o.kind = "circle" THEN 1 ELSE 0),
    sliders  |-> n.sliders + (IF o.kind = "slider" THEN 1 ELSE 0),
    spinners |-> n.spinners + (IF o.kind = "spinner" THEN 1 ELSE 0),
    combo    |-> n.combo + 1 + (IF o.kind = "slider" THEN o.points ELSE 0) ]
RECURSIVE CountAll(_, _)
CountAll(n, os) == IF os = <<>> THEN n ELSE CountAll(Count(n, Head(os)), Tail(os))

(* A rating in progress: counts and strains [aim, still, speed, flash].    *)
RateStart == [counts |-> NoCounts, aim |-> StrainStart, still |-> StrainStart, speed |-> StrainStart, flash |-> StrainStart]
(* The first object is only counted; every other also strains: adds are its *)
(* contributions, rhythm the bonus on speed.                               *)
RateFirst(r, o) == [r EXCEPT !.counts = Count(@, o)]
RateNext(r, o, t, delta, adds, rhythm) ==
  [ counts |-> Count(r.counts, o),
    aim    |-> Feel(r.aim, Aim, t, delta, adds.aim, One),
    still  |-> Feel(r.still, Aim, t, delta, adds.still, One),
    speed  |-> Feel(r.speed, Speed, t, delta, adds.speed, rhythm),
    flash  |-> Feel(r.flash, Flash, t, delta, adds.flash, One) ]
Nothing == [aim |-> Zero, speed |-> Zero, flash |-> Zero, slider |-> Zero, total |-> Zero]
RateStars(r, style) ==
  IF r.counts.objects = 0 THEN Nothing
  ELSE StarsOf(Value(Peaks(r.aim), AimQ), Value(Peaks(r.still), AimQ), Value(Peaks(r.speed), SpeedQ),
               IF style.flashlight THEN Value(Peaks(r.flash), FlashQ) ELSE Zero, style)
=============================================================================
