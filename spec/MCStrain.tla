------------------------------ MODULE MCStrain ------------------------------
(* All short histories of contributions and gaps (in tenths of a second,   *)
(* some across many sections), against the strain as a sum over objects    *)
(* and the peak as a maximum over moments.                                 *)
EXTENDS Strain, TLC, Json, FiniteSets
CONSTANTS Depth, Steps, Adds, Starts, Emit
VARIABLES st, done, hist
vars == <<st, done, hist>>
k == [mult |-> D("2"), base |-> D("0.3"), history |-> 2]

(* done: the objects so far, [t, add] with t in ms (integers).             *)
Init == st = StrainStart /\ done = <<>> /\ hist = <<>>
Feed(t, a, d) == /\ st' = Feel(st, k, I(t), I(d), I(a), One)
                 /\ done' = Append(done, [t |-> t, add |-> a])
                 /\ hist' = Remember(hist, k, t)
Next == /\ Len(done) < Depth
        /\ \E a \in Adds :
             IF done = <<>> THEN \E t \in Starts : Feed(t - 50, a, 100)
             ELSE \E d \in Steps : Feed(done[Len(done)].t + d, a, d)

N == Len(done)
SumAt(t) ==  \* strain at time t: everything up to t, decayed
  LET F[i \in 0..N] == IF i = 0 THEN Zero
        ELSE F[i-1] ++ (IF done[i].t <= t THEN (k.mult ** I(done[i].add)) ** Decay(k, I(t - done[i].t)) ELSE Zero)
  IN F[N]
CeilDiv(a, b) == -((-a) \div b)
FirstEdge == CeilDiv(done[1].t, 400)            \* section number j covers ((j-1)*400, j*400]
LastEdge == CeilDiv(done[N].t, 400)
SectionPeak(j) ==
  LET from == SumAt((j-1) * 400)
      in == {i \in 1..N : (j-1) * 400 < done[i].t /\ done[i].t <= j * 400}
      cand == {SumAt(done[i].t) : i \in in} \cup {IF j = FirstEdge THEN Zero ELSE from}
  IN CHOOSE x \in cand : \A y \in cand : y \preceq x
(* Simultaneous objects before a border already count: SumAt covers them.  *)
Sections == N > 0 =>
  /\ Len(Peaks(st)) = LastEdge - FirstEdge + 1
  /\ \A j \in FirstEdge..LastEdge : Close(Peaks(st)[j - FirstEdge + 1], SectionPeak(j), D("1e-9"), D("1e-12"))
StrainSum == N > 0 => Close(st.strain, SumAt(done[N].t), D("1e-9"), D("1e-12"))
Window == Len(hist) <= k.history /\ hist = [i \in 1..Len(hist) |-> done[N - Len(hist) + i].t]

(* A list of peaks is worth no less if one of them grows, and its order    *)
(* does not matter.                                                        *)
Q == [reduced |-> 2, lowest |-> D("0.75"), weight |-> D("0.9"), scale |-> D("1.06")]
Worth == N > 0 => LET p == Peaks(st) IN
  /\ Close(Value(p, Q), Value([i \in 1..Len(p) |-> p[Len(p) + 1 - i]], Q), D("1e-9"), Zero)
  /\ \A i \in 1..Len(p) : Value([p EXCEPT ![i] = @ ++ One], Q) \succ Value(p, Q)
  /\ Value(<<One>>, Q) = D("0.75") ** Q.scale

Emitted == (Emit /\ N = Depth) => PrintT("GEN " \o ToJson(done))
=============================================================================
