------------------------------ MODULE MCCurves ------------------------------
(* A parameter sweeping over every curve through four points of a grid.    *)
EXTENDS Curves, FiniteSets, TLC
CONSTANTS Grid, Steps
VARIABLES pts, arc, t, len      \* len: traced length of bezier, arc, catmull
vars == <<pts, arc, t, len>>
Pt == {<<I(x), I(y)>> : x \in Grid, y \in Grid}
Init == /\ pts \in [1..4 -> Pt] /\ pts[1] = <<Zero, Zero>>
        /\ t = 0 /\ len = <<Zero, Zero, Zero>>
        /\ arc = IF Collinear(pts[1], pts[2], pts[3]) THEN <<>> ELSE <<Arc(pts[1], pts[2], pts[3])>>
T(k) == I(k) // I(Steps)
ArcAt(k) == IF arc = <<>> THEN pts[1] ELSE ArcPoint(arc[1], S(T(k)))
Step == /\ t < Steps /\ t' = t + 1
        /\ len' = <<len[1] ++ DDst(BezierPoint(pts, T(t)), BezierPoint(pts, T(t'))),
                    len[2] ++ DDst(ArcAt(t), ArcAt(t')),
                    len[3] ++ DDst(CatmullPoint(pts, T(t)), CatmullPoint(pts, T(t')))>>
        /\ UNCHANGED <<pts, arc>>
Next == Step
P(what, p, q, eps) == DDst(p, q) \preceq eps
BezierForms == P("", BezierPoint(pts, T(t)), BernsteinPoint(pts, T(t)), D("1e-9"))
BezierEnds == /\ t = 0 => P("", BezierPoint(pts, T(t)), pts[1], D("1e-9"))
              /\ t = Steps => P("", BezierPoint(pts, T(t)), pts[4], D("1e-9"))
BezierShort == t = Steps => /\ len[1] \preceq ChordSum(pts) ++ D("1e-6")
                            /\ DDst(pts[1], pts[4]) \preceq len[1] ++ D("1e-6")
CatmullForms == P("", CatmullPoint(pts, T(t)), CatmullBasis(pts, T(t)), D("1e-3"))
CatmullEnds == /\ t = 0 => P("", CatmullPoint(pts, T(t)), pts[2], D("1e-3"))
               /\ t = Steps => P("", CatmullPoint(pts, T(t)), pts[3], D("1e-3"))
ArcEnds == arc # <<>> => /\ t = 0 => P("", ArcAt(t), pts[1], D("1e-2"))
                         /\ t = Steps => P("", ArcAt(t), pts[3], D("1e-2"))
                         /\ Close(DDst(ArcAt(t), arc[1].centre), arc[1].r, D("1e-5"), D("1e-3"))
(* The sweep brings it over the second point: it is inside the swept angle. *)
ArcMiddle == (arc # <<>> /\ t = 0) =>
  LET chord == Cross(pts[1], pts[2], pts[3])
      mid == Cross(pts[1], ArcPoint(arc[1], Half), pts[3])
  IN (chord \succ Zero) = (mid \succ Zero)
ArcLengthOk == (arc # <<>> /\ t = Steps) => /\ len[2] \preceq (arc[1].r ** arc[1].sweep) ++ D("1e-2")
                                            /\ (arc[1].r ** arc[1].sweep) \preceq (len[2] ** D("1.1")) ++ D("1e-2")
ASSUME PascalSymmetric == \A n \in 0..20 : \A k \in 0..n : Binomial(n, k) = Binomial(n, n - k)
ASSUME PascalSum == \A n \in 0..20 : Sum(PascalRow(n)) = FPow(Two, I(n))
=============================================================================
