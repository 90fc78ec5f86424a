----------------------------- MODULE DifficultyRules -----------------------------
(***************************************************************************)
(* Difficulty settings: five base values, a mod selection and a custom     *)
(* speed, and the quantities derived from them.  Every setter recomputes   *)
(* all derived quantities.                                                 *)
(***************************************************************************)
EXTENDS Float64, Integers

(* Piecewise linear around 5.                                              *)
Rate(d, lo, mid, hi) ==
  IF d \succ D("5") THEN mid ++ (((hi -- mid) ** (d -- D("5"))) // D("5"))
  ELSE IF d \prec D("5") THEN mid -- (((mid -- lo) ** (D("5") -- d)) // D("5"))
  ELSE mid

(* The displayed setting a rate corresponds to, linear on both sides.      *)
FromRate(r, lo, mid, hi) ==
  IF r \succ mid THEN FNeg((r -- lo) // ((lo -- mid) // D("5")))
  ELSE D("5") -- ((r -- mid) // ((mid -- hi) // D("5")))

(* Value of a base setting under the mods; k is the Hard Rock factor.      *)
Adjusted(v, mods, k) ==
  LET hr == IF "HR" \in mods THEN FMin(v ** D(k), D("10")) ELSE v
  IN IF "EZ" \in mods THEN hr // Two ELSE hr

ModdedTime(t, mods, speed) ==
  IF "DT" \in mods THEN t // (D("1.5") ** speed)
  ELSE IF "HT" \in mods THEN t // (D("0.75") ** speed)
  ELSE t // speed

Derive(s) ==
  LET ar == Adjusted(s.ar, s.mods, "1.4")
      cs == Adjusted(s.cs, s.mods, "1.3")
      od == Adjusted(s.od, s.mods, "1.4")
      hp == Adjusted(s.hp, s.mods, "1.4")
      preempt == Rate(ar, D("1800"), D("1200"), D("450"))
      hit300  == Rate(od, D("80"), D("50"), D("20"))
      T(t) == ModdedTime(t, s.mods, s.speed)
  IN [ hpmod   |-> hp,
       radius  |-> Rate(cs, D("54.4"), D("32"), D("9.6")),
       preempt |-> preempt,
       hit50   |-> Rate(od, D("200"), D("150"), D("100")),
       hit100  |-> Rate(od, D("140"), D("100"), D("60")),
       hit300  |-> hit300,
       spinner |-> Rate(od, D("3"), D("5"), D("7.5")),
       speed   |-> One // T(One),
       arreal  |-> FromRate(T(preempt), D("1800"), D("1200"), D("450")),
       odreal  |-> FromRate(T(hit300), D("80"), D("50"), D("20")) ]

Settings(hp, cs, od, ar, mods, speed) ==
  [hp |-> hp, cs |-> cs, od |-> od, ar |-> ar, mods |-> mods, speed |-> speed]

Fresh(hp, cs, od, ar) == Settings(hp, cs, od, ar, {}, One)
=============================================================================
