------------------------------- MODULE MCPath -------------------------------
(* A walker moving along every small path: control polygons on a grid, all *)
(* types, declared lengths shorter and longer than the curve.              *)
EXTENDS Path, FiniteSets, TLC, Json
CONSTANTS Grid,       \* control point coordinates (integers)
          MaxPoints, Steps, Emit
VARIABLES type, pts, want,
          raw,        \* the curve before fitting to the declared length
          path, at, dist
vars == <<type, pts, want, raw, path, at, dist>>

Pt == {<<I(x), I(y)>> : x \in Grid, y \in Grid}
Controls == UNION {[1..n -> Pt] : n \in 2..MaxPoints}
Origin == <<Zero, Zero>>

Init == /\ type \in {"L", "P", "B", "C"}
        /\ pts \in {<<Origin>> \o p : p \in UNION {[1..n -> Pt] : n \in 1..(MaxPoints-1)}}
        /\ want \in {D("30"), D("75.5"), D("400")}
        /\ raw = Polyline(type, pts)
        /\ path = PathOf(type, pts, want)
        /\ at = 0 /\ dist = Zero
Frac(k) == SDiv(I(k), I(Steps))
Walk == /\ at < Steps
        /\ at' = at + 1
        /\ dist' = dist ++ DDst(PathPoint(path, Frac(at)), PathPoint(path, Frac(at')))
        /\ UNCHANGED <<type, pts, want, raw, path>>
Next == Walk

Degenerate == Total(raw) = Zero \/ VEq(raw[Len(raw)][1], raw[Len(raw)][2])
StartsAtHead == at = 0 => DDst(PathPoint(path, Zero), pts[1]) \preceq D("0.01")
DeclaredLength == Degenerate \/ Close(path.length, want, D("1e-5"), D("1e-3"))
(* Steps of equal fraction never cover more than their share of length,    *)
(* and on a straight line exactly that.                                    *)
ArcLength == /\ dist \preceq (path.length ** (I(at) // I(Steps))) ++ D("0.01")
             /\ (type = "L" /\ Len(pts) = 2 /\ ~Degenerate) => Close(dist, path.length ** (I(at) // I(Steps)), D("1e-5"), D("1e-3"))
(* Uncut curves end at their last control point; Bezier vertices are near   *)
(* the curve; arcs stay on their circle and pass their middle point.        *)
Near2(p, q, eps) == DDst(p, q) \preceq eps
RawEnd == at = 0 /\ raw # <<>> => Near2(raw[Len(raw)][2], pts[Len(pts)], D("0.01"))
RawStart == at = 0 /\ raw # <<>> => Near2(raw[1][1], pts[1], D("0.01"))
Joined == at = 0 => \A i \in 1..Len(raw)-1 : Near2(raw[i][2], raw[i+1][1], D("0.01"))
Vertices == {raw[i][2] : i \in 1..Len(raw)}
BezierNear ==
  (at = 0 /\ type = "B" /\ Len(Pieces(pts, 1, 1)) = 1 /\ Len(pts) > 2) =>
     \A k \in 0..10 : \E i \in 1..Len(raw) :
        LET p == BernsteinPoint(pts, I(k) // I(10))
            s == raw[i] d == DDst(s[1], s[2])
        IN (DDst(s[1], p) ++ DDst(p, s[2])) -- d \preceq D("0.35")
ArcOnCircle ==
  (at = 0 /\ type = "P" /\ Len(pts) = 3 /\ ~Collinear(pts[1], pts[2], pts[3])) =>
     LET a == Arc(pts[1], pts[2], pts[3]) IN
     /\ \A v \in Vertices : Close(DDst(v, a.centre), a.r, D("1e-4"), D("1e-3"))
     /\ Close(DDst(pts[2], a.centre), a.r, D("1e-4"), D("1e-3"))
     /\ \E i \in 1..Len(raw) : (DDst(raw[i][1], pts[2]) ++ DDst(pts[2], raw[i][2])) -- DDst(raw[i][1], raw[i][2]) \preceq D("1")
CatmullThrough ==
  (at = 0 /\ type = "C") => \A i \in 1..Len(pts) : \E v \in {pts[1]} \cup Vertices : Near2(v, pts[i], D("0.01"))
LinearThrough ==
  (at = 0 /\ type = "L") => \A i \in 1..Len(pts) : \E v \in {pts[1]} \cup Vertices : VEq(v, pts[i])
View == <<type, pts, want, at>>
Stay == at < 0 /\ UNCHANGED vars
Emitted == (Emit /\ at = 0) => PrintT("GEN " \o ToJson([type |-> type, pts |-> [i \in 1..Len(pts) |-> <<FStr(pts[i][1]), FStr(pts[i][2])>>], want |-> FStr(want)]))
=============================================================================
