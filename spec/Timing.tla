------------------------------- MODULE Timing -------------------------------
(***************************************************************************)
(* Timing points: how a line declares one, which one is active, and the    *)
(* speeds derived from it.                                                 *)
(***************************************************************************)
EXTENDS Float64, Text, Integers, Sequences, FiniteSets, SequencesExt

Field(f, i, default) == IF Len(f) >= i THEN f[i] ELSE default

(* A timing line's fields (white space removed) become a point.            *)
TimingPoint(f) ==
  [ time      |-> ToF(f[1]),
    beat      |-> ToF(f[2]),
    base      |-> ToF(f[2]),
    signature |-> LET s == IntOf(Field(f, 3, "4")) IN IF s = 0 THEN 4 ELSE s,
    set       |-> IntOf(Field(f, 4, "0")),
    index     |-> IntOf(Field(f, 5, "1")),
    volume    |-> IF Len(f) >= 6 THEN I(IntOf(f[6])) // D("100") ELSE One,
    inherited |-> Len(f) >= 7 /\ IntOf(f[7]) = 0,
    kiai      |-> Len(f) >= 8 /\ HasBit(IntOf(f[8]), 0),
    omit      |-> Len(f) >= 8 /\ HasBit(IntOf(f[8]), 3) ]

(* What a list of points takes for granted: 60 beats a minute.             *)
DefaultPoint == [ time |-> Zero, beat |-> D("1000"), base |-> D("1000"), signature |-> 4, set |-> 0, index |-> 1,
                  volume |-> One, inherited |-> FALSE, kiai |-> FALSE, omit |-> FALSE ]

(* Stable insertion by time.                                               *)
InsertPoint(pts, p) ==
  LET k == Cardinality({i \in 1..Len(pts) : pts[i].time \preceq p.time})
  IN SubSeq(pts, 1, k) \o <<p>> \o SubSeq(pts, k + 1, Len(pts))

(* All points in time order, inherited ones taking over the base beat      *)
(* length of the point before.                                             *)
Finalized(pts) ==
  LET sorted == FoldLeft(InsertPoint, <<>>, pts)
      step(acc, p) == IF p.inherited /\ acc # <<>>
                      THEN Append(acc, [p EXCEPT !.base = acc[Len(acc)].base])
                      ELSE Append(acc, p)
  IN FoldLeft(step, <<>>, sorted)

Uninherited(fin) ==
  LET idx == SelectSeq([i \in 1..Len(fin) |-> i], LAMBDA i : i = 1 \/ ~fin[i].inherited)
  IN [i \in 1..Len(idx) |-> fin[idx[i]]]

(* The last point not after t, else the first.                             *)
ActiveAt(fin, t) ==
  LET before == {i \in 1..Len(fin) : ~(t \prec fin[i].time)}
  IN fin[IF before = {} THEN 1 ELSE CHOOSE i \in before : \A j \in before : j <= i]

Ratio(p) == IF p.beat \succeq Zero \/ IsNaN(p.beat) THEN One
            ELSE SDiv(S(Clamp(FNeg(p.beat), D("10"), D("1000"))), D("100"))
BeatLength(p) == p.base ** Ratio(p)

(* mult: slider multiplier, rate: tick rate.                               *)
ScoringDistance(mult, rate) == (D("100") ** mult) // rate
Velocity(p, mult, rate) ==
  LET v == ScoringDistance(mult, rate) ** rate
      b == BeatLength(p)
  IN IF b \succeq Zero THEN v ** (D("1000") // b) ELSE v
TickDistance(p, mult, rate) == ScoringDistance(mult, rate) // Ratio(p)
SliderTime(p, mult, rate, length) ==
  SDiv(S(D("1000") ** length), S((D("100") ** mult) ** (D("1000") // BeatLength(p))))

Bpms(pts) == LET ok == SelectSeq(pts, LAMBDA p : p.beat \succeq Zero)
             IN [i \in 1..Len(ok) |-> D("60000") // ok[i].beat]
MinBpm(pts) == FoldLeft(FMin, FInf, Bpms(pts))
MaxBpm(pts) == FoldLeft(FMax, Zero, Bpms(pts))
=============================================================================
