------------------------------- MODULE Score -------------------------------
(***************************************************************************)
(* Scores and their performance points.                                    *)
(*                                                                         *)
(* s: [combo, great, ok, meh, miss], integers; a negative combo or number  *)
(*    of greats is to be completed.                                        *)
(* a: attributes of the map [objects, circles, sliders, spinners, combo]   *)
(*    (integers) and [aim, speed, flash, slider] (ratings).                *)
(* der, mods: derived difficulty and mod selection.                        *)
(***************************************************************************)
EXTENDS Float64, Integers

LOCAL IMin(x, y) == IF x < y THEN x ELSE y
LOCAL IMax(x, y) == IF x > y THEN x ELSE y

FullCombo(a) == IMax(1, a.combo)

(* Slider breaks show in a combo too low for the misses: the full combo    *)
(* less a tenth of the sliders, over the combo.                            *)
Breaks(combo, hits, a) ==
  LET reach == I(FullCombo(a)) -- (D("0.1") ** I(a.sliders)) IN
  IF a.sliders > 0 /\ I(combo) \prec reach
  THEN ToInt(FFloor(FMin(reach // FMax(One, I(combo)), I(hits)))) ELSE 0

Completed(s, a) ==
  LET combo == IF s.combo < 0 THEN FullCombo(a) ELSE s.combo
      great == IF s.great < 0 THEN a.objects - s.ok - s.meh - s.miss ELSE s.great
      hits == great + s.ok + s.meh + s.miss
  IN [ combo |-> combo, great |-> great, ok |-> s.ok, meh |-> s.meh, miss |-> s.miss, hits |-> hits,
       gone |-> IMax(s.miss, Breaks(combo, hits, a)),
       acc  |-> IF hits = 0 THEN Zero
                ELSE Clamp(I((300 * great) + (100 * s.ok) + (50 * s.meh)) // (I(hits) ** D("300")), Zero, One) ]

(* Misses as they weigh on values: under Relax an inaccurate hit is one.   *)
Weighing(z, mods) == IF "RX" \in mods THEN IMin(z.gone + z.ok + z.meh, z.hits) ELSE z.gone
Accurate(a, mods) == IF "V2" \in mods THEN a.objects ELSE a.circles

-----------------------------------------------------------------------------
Base(stars) == LET x == (D("5") ** FMax(One, stars // D("0.0675"))) -- D("4") IN (x ** (x ** x)) // D("100000")
Touched(stars, mods) == IF "TD" \in mods THEN FPow(stars, D("0.8")) ELSE stars

LongBonus(hits) ==
  (D("0.95") ++ (D("0.4") ** FMin(One, I(hits) // D("2000"))))
  ++ (IF hits > 2000 THEN FLog10(I(hits) // D("2000")) ** Half ELSE Zero)
MissCut(gone, hits, power) ==
  IF gone <= 0 THEN One
  ELSE D("0.97") ** FPow(One -- FPow(I(gone) // I(hits), D("0.775")), FPow(I(gone), power))
ComboCut(z, a) == FMin(One, FPow(I(z.combo), D("0.8")) // FPow(I(FullCombo(a)), D("0.8")))
HighAr(der) == IF der.arreal \succ D("10.33") THEN D("0.3") ** (der.arreal -- D("10.33")) ELSE Zero
LowAr(der)  == IF der.arreal \prec D("8") THEN D("0.1") ** (D("8") -- der.arreal) ELSE Zero
HiddenBonus(der, mods) == IF "HD" \in mods THEN One ++ (D("0.04") ** (D("12") -- der.arreal)) ELSE One
OdBonus(der) == D("0.98") ++ (Square(der.odreal) // D("2500"))

(* Of 15% of the sliders, those whose ends may have been dropped.          *)
SliderCut(z, a) ==
  IF a.sliders <= 0 THEN One
  ELSE LET hard == I(a.sliders) ** D("0.15")
           dropped == Clamp(I(IMin(z.ok + z.meh + z.miss, FullCombo(a) - z.combo)), Zero, hard)
           kept == One -- (dropped // hard)
       IN ((One -- a.slider) ** (kept ** (kept ** kept))) ++ a.slider

AimPP(z, a, der, mods) ==
  (((Base(Touched(a.aim, mods)) ** LongBonus(z.hits)) ** (MissCut(Weighing(z, mods), z.hits, One) ** ComboCut(z, a)))
   ** ((One ++ ((HighAr(der) ++ LowAr(der)) ** LongBonus(z.hits))) ** HiddenBonus(der, mods)))
  ** (SliderCut(z, a) ** (z.acc ** OdBonus(der)))

SpeedPP(z, a, der, mods) ==
  LET slack == I(z.meh) -- (I(z.hits) // D("500")) IN
  (((Base(a.speed) ** LongBonus(z.hits)) ** (MissCut(Weighing(z, mods), z.hits, D("0.875")) ** ComboCut(z, a)))
   ** ((One ++ (HighAr(der) ** LongBonus(z.hits))) ** HiddenBonus(der, mods)))
  ** (((D("0.95") ++ (Square(der.odreal) // D("750"))) ** FPow(z.acc, (D("14.5") -- FMax(der.odreal, D("8"))) // Two))
      ** FPow(D("0.98"), FMax(Zero, slack)))

AccuracyPP(z, a, der, mods) ==
  LET n == Accurate(a, mods)
      share == IF n > 0 THEN FMax(Zero, I(((z.great - (z.hits - n)) * 6) + (z.ok * 2) + z.meh) // (I(n) ** D("6"))) ELSE Zero
  IN IF "RX" \in mods \/ n = 0 THEN Zero
     ELSE (((FPow(D("1.52163"), der.odreal) ** FPow(share, D("24"))) ** D("2.83"))
           ** FMin(D("1.15"), FPow(I(n) // D("1000"), D("0.3"))))
          ** ((IF "HD" \in mods THEN D("1.08") ELSE One) ** (IF "FL" \in mods THEN D("1.02") ELSE One))

FlashPP(z, a, der, mods) ==
  IF "FL" \notin mods THEN Zero
  ELSE (((Square(Touched(a.flash, mods)) ** D("25")) ** (IF "HD" \in mods THEN D("1.3") ELSE One))
        ** (MissCut(Weighing(z, mods), z.hits, D("0.875")) ** ComboCut(z, a)))
       ** (((D("0.7") ++ (D("0.1") ** FMin(One, I(z.hits) // D("200"))))
            ++ (IF z.hits > 200 THEN D("0.2") ** FMin(One, I(z.hits - 200) // D("200")) ELSE Zero))
           ** ((Half ++ (z.acc // Two)) ** OdBonus(der)))

(* No Fail and Spun Out forgive, Relax helps (before it counts misses).    *)
Multiplier(z, a, mods) ==
  (D("1.12") ** (IF "NF" \in mods THEN FMax(D("0.9"), One -- (D("0.02") ** I(z.gone))) ELSE One))
  ** ((IF "SO" \in mods /\ z.hits > 0 THEN One -- FPow(I(a.spinners) // I(z.hits), D("0.85")) ELSE One)
      ** (IF "RX" \in mods THEN D("0.6") ELSE One))

PP(s, a, der, mods) ==
  LET z == Completed(s, a)
      aim == AimPP(z, a, der, mods)
      speed == SpeedPP(z, a, der, mods)
      acc == AccuracyPP(z, a, der, mods)
      flash == FlashPP(z, a, der, mods)
      p(x) == FPow(x, D("1.1"))
  IN [ aim |-> aim, speed |-> speed, acc |-> acc, flash |-> flash,
       total |-> FPow((p(aim) ++ p(speed)) ++ (p(acc) ++ p(flash)), One // D("1.1")) ** Multiplier(z, a, mods) ]

-----------------------------------------------------------------------------
(* Full plays, and what makes one worse.                                   *)
FullPlay(s, a) == /\ s.combo >= 0 /\ s.combo <= FullCombo(a)
                  /\ s.great >= 0 /\ s.ok >= 0 /\ s.meh >= 0 /\ s.miss >= 0
                  /\ s.great + s.ok + s.meh + s.miss = a.objects
Worse(s) ==
  (IF s.great = 0 THEN {}
   ELSE {[s EXCEPT !.great = @ - 1, !.ok = @ + 1], [s EXCEPT !.great = @ - 1, !.meh = @ + 1], [s EXCEPT !.great = @ - 1, !.miss = @ + 1]})
  \cup (IF s.combo = 0 THEN {} ELSE {[s EXCEPT !.combo = @ - 1]})
=============================================================================
