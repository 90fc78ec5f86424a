------------------------------- MODULE MCValue -------------------------------
(* Every short list of peaks and what it amounts to.                       *)
EXTENDS Strain, TLC, Json, FiniteSets
CONSTANTS Depth, Heights, Emit
VARIABLE peaks
Init == peaks = <<>>
Next == Len(peaks) < Depth /\ \E h \in Heights : peaks' = Append(peaks, h)
Q(n) == [reduced |-> n, lowest |-> D("0.75"), weight |-> D("0.9"), scale |-> One]
Flat == [reduced |-> 2, lowest |-> D("0.75"), weight |-> One, scale |-> One]
Doubles(p) == [i \in 1..Len(p) |-> I(p[i])]
Swapped(p, i, j) == [p EXCEPT ![i] = p[j], ![j] = p[i]]
RECURSIVE Sum(_)
Sum(p) == IF p = <<>> THEN Zero ELSE I(p[1]) ++ Sum(Tail(p))
Near2(a, b) == Close(a, b, D("1e-12"), Zero)
Order == \A i, j \in 1..Len(peaks) : Near2(Value(Doubles(peaks), Q(2)), Value(Doubles(Swapped(peaks, i, j)), Q(2)))
Growth == \A i \in 1..Len(peaks) : Value(Doubles([peaks EXCEPT ![i] = @ + 1]), Q(2)) \succ Value(Doubles(peaks), Q(2))
Bounds == /\ Value(Doubles(peaks), Flat) \preceq Sum(peaks)
          /\ Value(Doubles(peaks), Flat) \succeq (Sum(peaks) ** D("0.75"))
          /\ Near2(Value(Doubles(peaks), [Flat EXCEPT !.reduced = 0]), Sum(peaks))
          /\ Value(Doubles(peaks), Q(2)) \preceq Value(Doubles(peaks), Flat)
More == Value(Doubles(Append(peaks, 0)), Q(2)) \succeq Value(Doubles(peaks), Q(2))
Emitted == (Emit /\ Len(peaks) = Depth) => PrintT("GEN " \o ToJson(peaks))
=============================================================================
