----------------------------- MODULE MCStacking ------------------------------
(* Every short sequence of circles, sliders and spinners at two places and *)
(* with gaps inside and outside the window, stacked step by step both ways. *)
EXTENDS Stacking, TLC, Json
CONSTANTS Depth, Emit, Shapes, Gaps
VARIABLES os, gen, pass, st, win
vars == <<os, gen, pass, st, win>>

A == <<D("100"), D("100")>>
B == <<D("102"), D("101")>>   \* near A
C == <<D("200"), D("100")>>
Place(k) == CASE k = "A" -> A [] k = "B" -> B [] k = "C" -> C
Last1(s) == s[Len(s)]
Free == IF os = <<>> THEN Zero ELSE Last1(os).start
Shape(k, t) ==
  CASE k \in {"A", "B", "C"} -> [kind |-> "circle", start |-> t, end |-> t, p |-> Place(k), q |-> Place(k)]
    [] k = "AC"  -> [kind |-> "slider", start |-> t, end |-> t ++ D("100"), p |-> A, q |-> C]
    [] k = "CA"  -> [kind |-> "slider", start |-> t, end |-> t ++ D("100"), p |-> C, q |-> A]
    [] k = "AA"  -> [kind |-> "slider", start |-> t, end |-> t ++ D("200"), p |-> A, q |-> A]
    [] k = "SP"  -> [kind |-> "spinner", start |-> t, end |-> t ++ D("50"), p |-> A, q |-> A]

Init == os = <<>> /\ gen = <<>> /\ pass = "place" /\ st = <<>> /\ win = Zero
Put == /\ pass = "place" /\ Len(os) < Depth
       /\ \E k \in Shapes, g \in Gaps :
            /\ os' = Append(os, Shape(k, Free ++ I(g)))
            /\ gen' = Append(gen, <<k, ToString(g)>>)
       /\ UNCHANGED <<pass, st, win>>
Begin == /\ pass = "place" /\ os # <<>>
         /\ \E p \in {"new", "old"}, w \in {"300", "1"} :
              /\ pass' = p /\ win' = D(w)
              /\ st' = IF p = "new" THEN NewStart(os) ELSE OldStart(os)
         /\ UNCHANGED <<os, gen>>
Step == \/ pass = "new" /\ ~NewDone(st) /\ st' = NewStep(st, os, win) /\ UNCHANGED <<os, gen, pass, win>>
        \/ pass = "old" /\ ~OldDone(st, os) /\ st' = OldStep(st, os, win) /\ UNCHANGED <<os, gen, pass, win>>
Next == Put \/ Begin \/ Step

Finished == (pass = "new" /\ NewDone(st)) \/ (pass = "old" /\ OldDone(st, os))
H == Settled(st.h, os)
N == Len(os)
(* The big steps agree with the small ones.                                *)
BigStep == Finished => H = IF pass = "new" THEN NewHeights(os, win) ELSE OldHeights(os, win)
(* The pointers stay in order.                                             *)
Pointers == /\ pass = "new" => st.i \in 0..N+1 /\ st.n >= 0 /\ (st.n > 0 => st.n < st.cur /\ st.cur <= st.i)
            /\ pass = "old" => st.i \in 0..N /\ st.n \in 1..N+1 /\ (st.n <= N => st.i < st.n)

(* Circles on top of each other count down to the last one, in both ways.  *)
AllCircles == \A k \in 1..N : os[k].kind = "circle"
Followed(k) == {m \in k+1..N : NearBy(os[k].p, os[m].p)}
Follow(k) == CHOOSE m \in Followed(k) : \A x \in Followed(k) : m <= x
RECURSIVE Pile(_)
Pile(k) == IF Followed(k) = {} \/ (os[Follow(k)].start -- os[k].end) \succ win THEN 0 ELSE Pile(Follow(k)) + 1
Piles == (Finished /\ AllCircles) => \A k \in 1..N : H[k] = Pile(k)

(* Without sliders nothing sinks; without spinners in the list the rest    *)
(* of a new-style map looks the same.                                      *)
NoSlider == \A k \in 1..N : ~IsSlider(os[k])
Floating == (Finished /\ NoSlider) => \A k \in 1..N : H[k] >= 0
Kept == SelectSeq([k \in 1..N |-> k], LAMBDA k : ~IsSpinner(os[k]))
Spinners == (Finished /\ pass = "new") =>
  NewHeights([k \in 1..Len(Kept) |-> os[Kept[k]]], win) = [k \in 1..Len(Kept) |-> H[Kept[k]]]
(* A circle alone at a slider's end sinks by one.                          *)
SliderEnd == (Finished /\ N = 2 /\ IsSlider(os[1]) /\ os[2].kind = "circle" /\ ~NearBy(os[1].p, os[2].p)) =>
  H = <<0, IF NearBy(os[1].q, os[2].p) /\ (os[2].start -- os[1].end) \preceq win THEN -1 ELSE 0>>
(* Objects far from all others, in place or time, have no height.          *)
Alone(k) == \A m \in 1..N : m # k => ~NearBy(os[m].p, os[k].p) /\ ~NearBy(os[m].q, os[k].p) /\ ~NearBy(os[m].p, os[k].q) /\ ~NearBy(os[m].q, os[k].q)
Lonely == Finished => \A k \in 1..N : Alone(k) => H[k] = 0

(* Positions: a mirrored map is mirrored everywhere, shifts go left and up. *)
Shifts == Finished => \A k \in 1..N :
  LET here == Appears(os[k].p, H[k], D("32"), {})
      hr   == Appears(os[k].p, H[k], D("32"), {"HR", "DT"})
  IN /\ VClose(here, <<os[k].p[1] -- (I(H[k]) ** D("3.2")), os[k].p[2] -- (I(H[k]) ** D("3.2"))>>, Zero, D("1e-3"))
     /\ FEq(hr[1], here[1]) /\ Close(hr[2] ++ here[2], D("384") -- (I(H[k]) ** D("6.4")), Zero, D("1e-3"))

Emitted == (Emit /\ pass = "place" /\ N = Depth) => PrintT("GEN " \o ToJson(gen))
PlaceOnly == pass = "place"
=============================================================================
