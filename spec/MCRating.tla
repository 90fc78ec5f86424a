------------------------------ MODULE MCRating ------------------------------
(* Every short map on a small grid of places and intervals, rated twice:    *)
(* as it is, and mirrored and a section later.                             *)
EXTENDS Rating, TLC
CONSTANTS Depth, Kinds, Gaps, Places, Styles, Size
VARIABLES g, twin, was, style, n
vars == <<g, twin, was, style, n>>

Diff == Derive(Settings(D("5"), I(Size), D("8"), D("9"), {}, One))
P(p) == <<I(p), I((p * 37) % 200)>>
Mirrored(p) == <<p[1], D("384") -- p[2]>>
(* A slider that goes 120 to the right and back.                           *)
Make(kind, p, t) ==
  LET far == VAdd(P(p), <<D("120"), Zero>>) IN
  IF kind = "slider"
  THEN [kind |-> kind, start |-> t, end |-> t ++ D("200"), head |-> P(p), tail |-> P(p), slides |-> 2, last |-> P(p),
        points |-> <<[t |-> t ++ D("100"), rev |-> TRUE, pos |-> far], [t |-> t ++ D("164"), rev |-> FALSE, pos |-> VAdd(P(p), <<D("43"), Zero>>)]>>]
  ELSE [kind |-> kind, start |-> t, end |-> t, head |-> P(p), tail |-> P(p)]
Twin(o) ==
  IF o.kind = "slider"
  THEN [o EXCEPT !.start = @ ++ Section, !.end = @ ++ Section, !.head = Mirrored(@), !.tail = Mirrored(@), !.last = Mirrored(@),
                 !.points = [i \in 1..Len(@) |-> [@[i] EXCEPT !.t = @ ++ Section, !.pos = Mirrored(@)]]]
  ELSE [o EXCEPT !.start = @ ++ Section, !.end = @ ++ Section, !.head = Mirrored(@), !.tail = Mirrored(@)]
Now(h) == IF h.seen = <<>> THEN Zero ELSE h.seen[Len(h.seen)].start

Init == /\ g = RatingStart /\ twin = RatingStart /\ was = RatingStart /\ n = 0
        /\ style \in {[relax |-> "relax" \in s, flashlight |-> "flashlight" \in s] : s \in Styles}
Next == /\ n < Depth /\ n' = n + 1 /\ was' = g /\ UNCHANGED style
        /\ \E k \in Kinds, p \in Places, dt \in Gaps :
             LET o == Make(k, p, Now(g) ++ I(dt)) IN g' = Take(g, o, Diff) /\ twin' = Take(twin, Twin(o), Diff)

Got == StarsNow(g, style)
Values == {Got.aim, Got.speed, Got.flash, Got.slider, Got.total}
Finite == \A v \in Values : IsFinite(v) /\ v \succeq Zero
Less(a, b) == (a ** D("0.999999")) \preceq b
Growing == LET w == StarsNow(was, style) IN
  n > 1 => Less(w.aim, Got.aim) /\ Less(w.speed, Got.speed) /\ Less(w.flash, Got.flash) /\ Less(w.total, Got.total)
(* Ratings know neither up from down nor one section from the next.        *)
Anywhere == LET t == StarsNow(twin, style) N(a, b) == Close(a, b, D("1e-4"), D("1e-5")) IN
  /\ N(Got.aim, t.aim) /\ N(Got.speed, t.speed) /\ N(Got.flash, t.flash) /\ N(Got.slider, t.slider) /\ N(Got.total, t.total)
  /\ g.rate.counts = twin.rate.counts
(* A flawless play is worth something exactly when there is something to   *)
(* play, and never less than one with a miss.                              *)
PlayMods == IF style.flashlight THEN {"FL"} ELSE {}
Played(miss) == PP([combo |-> FullCombo(AttributesNow(g, style)) - miss, great |-> n - miss, ok |-> 0, meh |-> 0, miss |-> miss], AttributesNow(g, style), Diff, PlayMods)
Worthwhile == (n > 0 /\ ~style.relax) =>
  /\ IsFinite(Played(0).total) /\ Played(0).total \succeq Zero /\ IsFinite(Played(1).total)
  /\ Played(1).total \preceq (Played(0).total ** D("1.000001"))
=============================================================================
