------------------------------- MODULE Strain -------------------------------
(***************************************************************************)
(* Strain over time.  Objects arrive in time order; strain decays between  *)
(* them and grows by what each contributes.  Time is cut into sections;    *)
(* each keeps the highest strain in it, starting from the decayed strain   *)
(* at its beginning.                                                       *)
(*                                                                         *)
(* k: [mult, base, history] - a skill's multiplier, decay per second and   *)
(* number of remembered objects.                                           *)
(***************************************************************************)
EXTENDS Float64, Sequences, Integers
LOCAL INSTANCE SequencesExt

Section == D("400")
Decay(k, ms) == FPow(k.base, ms // D("1000"))

(* level is the strain as rated at the last object (with any bonus), time   *)
(* the time of the last object.                                            *)
StrainStart == [strain |-> Zero, level |-> Zero, time |-> Zero, peak |-> Zero, edge |-> Zero, peaks |-> <<>>, any |-> FALSE]

(* Sections that end before time t are closed.                             *)
RECURSIVE CloseUntil(_, _, _)
CloseUntil(st, k, t) ==
  IF t \preceq st.edge \/ IsNaN(t) THEN st
  ELSE CloseUntil([st EXCEPT !.peaks = Append(@, st.peak),
                             !.peak = st.level ** Decay(k, st.edge -- st.time),
                             !.edge = @ ++ Section], k, t)
Opened(st, k, t) ==
  IF st.any THEN CloseUntil(st, k, t)
  ELSE [st EXCEPT !.edge = FCeil(t // Section) ** Section, !.any = TRUE]

(* An object at time t, delta after its predecessor.                       *)
Feel(st, k, t, delta, contribution, bonus) ==
  LET o == Opened(st, k, t)
      strain == (o.strain ** Decay(k, delta)) ++ (contribution ** k.mult)
      level == strain ** bonus
  IN [o EXCEPT !.strain = strain, !.level = level, !.time = t, !.peak = FMax(@, level)]

Peaks(st) == Append(st.peaks, st.peak)
Remember(hist, k, o) ==
  LET h == Append(hist, o) IN IF Len(h) > k.history THEN SubSeq(h, Len(h) - k.history + 1, Len(h)) ELSE h

-----------------------------------------------------------------------------
(* What a list of peaks amounts to: the highest reduced, then a sum with   *)
(* falling weights in descending order.  q: [reduced, lowest, weight, scale] *)
Reduction(q, i) ==   \* of the i-th highest, i = 1, 2, ...
  IF i > q.reduced THEN One
  ELSE Lerp(q.lowest, One, FLog10(Lerp(One, D("10"), I(i - 1) // I(q.reduced))))
Weigh(down, w) == FoldLeftDomain(LAMBDA sum, i : sum ++ (down[i] ** FPow(w, I(i - 1))), Zero, down)
Value(peaks, q) ==
  LET down == FSortDown(peaks)
      cut == FSortDown([i \in 1..Len(down) |-> down[i] ** Reduction(q, i)])
  IN Weigh(cut, q.weight) ** q.scale

(* The skills.                                                             *)
Aim    == [mult |-> D("23.25"), base |-> D("0.15"), history |-> 2]
Speed  == [mult |-> D("1375"),  base |-> D("0.3"),  history |-> 32]
Flash  == [mult |-> D("0.15"),  base |-> D("0.15"), history |-> 10]
AimQ   == [reduced |-> 10, lowest |-> D("0.75"), weight |-> D("0.9"), scale |-> D("1.06")]
SpeedQ == [reduced |-> 5,  lowest |-> D("0.75"), weight |-> D("0.9"), scale |-> D("1.04")]
FlashQ == [reduced |-> 10, lowest |-> D("0.75"), weight |-> One,      scale |-> D("1.06")]
=============================================================================
