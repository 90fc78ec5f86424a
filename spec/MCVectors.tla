----------------------------- MODULE MCVectors -----------------------------
(* A vector walking: turned, added, interpolated, halved.  The definitions *)
(* agree with each other wherever it goes.                                 *)
EXTENDS Vectors, FiniteSets, TLC
CONSTANTS Grid, Depth
VARIABLES p, q, n
vars == <<p, q, n>>
Pt == {<<I(x - 60), I(y - 60)>> : x \in Grid, y \in Grid}
Angles == {Zero, Pi // D("6"), Pi // Two, Pi, FNeg(Pi // D("3"))}
Init == p \in Pt /\ q \in Pt /\ n = 0
Next == /\ n < Depth /\ n' = n + 1
        /\ \/ \E a \in Angles : p' = DTurn(p, a) /\ q' = DTurn(q, a)
           \/ p' = q /\ q' = DMid(p, q)
           \/ \E t \in {Half, D("0.25"), D("2")} : p' = DLerp(p, q, t) /\ UNCHANGED q
           \/ p' = DAdd(p, q) /\ UNCHANGED q
C(a, b) == Close(a, b, D("1e-9"), D("1e-9"))
VC(a, b) == VClose(a, b, D("1e-9"), D("1e-9"))
Turning == \A a \in Angles : /\ C(DLen(DTurn(p, a)), DLen(p)) /\ VC(DTurn(DTurn(p, a), FNeg(a)), p)
                             /\ C(DDot(DTurn(p, a), DTurn(q, a)), DDot(p, q)) /\ C(DCross(DTurn(p, a), DTurn(q, a)), DCross(p, q))
                             /\ VC(DPolar(a, DLen(p)), DTurn(<<DLen(p), Zero>>, a))
Polar == VC(DPolar(FAtan2(p[2], p[1]), DLen(p)), p)
Middle == VC(DMid(p, q), DLerp(p, q, Half)) /\ VC(DLerp(p, q, Zero), p) /\ VC(DLerp(p, q, One), q)
Triangle == DLen(DAdd(p, q)) \preceq ((DLen(p) ++ DLen(q)) ++ D("1e-9"))
Cosines ==   \* the law of cosines
  LET o == <<D("7"), D("-11")>>
      a == DLen(DSub(p, o)) b == DLen(DSub(q, o)) c == DLen(DSub(p, q))
  IN (a \succ D("1e-6") /\ b \succ D("1e-6")) => C(CosAt(o, p, q), (((a ** a) ++ (b ** b)) -- (c ** c)) // (Two ** (a ** b)))
Units == DLen(p) \succ D("0.01") => C(DLen(DUnit(p)), One) /\ C(DCross(DUnit(p), p), Zero)
Straight == C(Doubled(p, q, DLerp(p, q, D("3"))), Zero)
=============================================================================
