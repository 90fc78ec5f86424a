---------------------------- MODULE TraceCurves -----------------------------
(* Recorded uses of the curve primitives: one curve per case, then a       *)
(* parameter visiting it.                                                  *)
EXTENDS Curves, Vectors, Conf, TLC
VARIABLES pts, len, c, l     \* the control points; the curve's length
vars == <<pts, len, c, l>>
Ev == Cases[c].ev
e  == Ev[l]
K  == Cases[c].in.kind

Init == c \in 1..NCases /\ l = 0 /\ pts = <<>> /\ len = Zero
Is(op) == l < Len(Ev) /\ Ev[l+1].op = op /\ l' = l + 1 /\ UNCHANGED c
TheArc == Arc(pts[1], pts[2], pts[3])
ControlLength == ChordSum(pts)
(* The length with the number of steps rounded down or up, where single    *)
(* precision may decide (off = 1 or -1 ten-thousandth).                     *)
LengthOf(p, off) ==
  LET n(x) == StepsFor(FMax(Zero, x ++ (D("1e-4") ** off))) IN
  CASE K = "bezier"  -> BezierTraced(p, n(ChordSum(p)))
    [] K = "arc"     -> Arc(p[1], p[2], p[3]).r ** Arc(p[1], p[2], p[3]).sweep
    [] K = "catmull" -> CatmullTraced(p, n(DDst(p[2], p[3])))
    [] K = "line"    -> LineLength(p[1], p[2])
(* Single precision places points no better than this.                     *)
Grain == LET m == FMaxOf([i \in 1..Len(pts) |-> FMax(FAbs(pts[i][1]), FAbs(pts[i][2]))]) IN D("1.5e-5") ** (One ++ m)
TrNew  == Is("curve") /\ pts' = Ev[l+1].pts /\ len' = LengthOf(pts', FNeg(One))
TrAt   == Is("at") /\ UNCHANGED <<pts, len>>
TrBin  == Is("binomial") /\ UNCHANGED <<pts, len>>
TrVec  == Is("vec") /\ UNCHANGED <<pts, len>>
TrDir  == Is("headings") /\ UNCHANGED <<pts, len>>
Done   == l = Len(Ev) /\ UNCHANGED vars
Next == TrNew \/ TrAt \/ TrBin \/ TrVec \/ TrDir \/ Done

At(t) == CASE K = "bezier"  -> BernsteinPoint(pts, t)
           [] K = "arc"     -> ArcPoint(TheArc, t)
           [] K = "catmull" -> CatmullBasis(pts, t)
           [] K = "line"    -> <<Lerp(pts[1][1], pts[2][1], t), Lerp(pts[1][2], pts[2][2], t)>>
StartPoint == IF K = "catmull" THEN pts[2] ELSE pts[1]
EndPoint  == IF K = "catmull" THEN pts[3] ELSE pts[Len(pts)]
OnArc(p) ==  \* independent of the formula: at the right distance from all three points' centre
  Near("distance from the centre", TheArc.r, DDst(p, TheArc.centre), D("1e-5"), D("5e-3"))

(* Directions are compared as unit vectors, where they are well defined.   *)
Way(what, p, q, a) ==
  DDst(p, q) \prec D("0.3") \/
  VNear(what, <<(p[1] -- q[1]) // DDst(p, q), (p[2] -- q[2]) // DDst(p, q)>>, <<FCos(a), FSin(a)>>, Zero, D("2e-2"))
Headings(f) ==
  CASE K = "line"   -> Way("start heading", pts[1], pts[2], f.start) /\ Way("end heading", pts[2], pts[1], f.end)
    [] K = "bezier" -> /\ Way("start heading", pts[1], At(One // ControlLength), f.start)
                       /\ Way("end heading", EndPoint, At(One -- (One // ControlLength)), f.end)
    [] K = "arc"    -> /\ Way("start heading", pts[1], At(One // len), f.start)
                       /\ Way("end heading", EndPoint, At((len -- One) // len), f.end)
    [] OTHER -> TRUE

Visit(f) ==
  /\ VNear(<<K, "at", FStr(f.t)>>, At(f.t), f.pos, D("1e-5"), D("1e-2"))
  /\ FEq(f.t, Zero) => VNear("start", StartPoint, f.pos, D("1e-5"), D("1e-2"))
  /\ FEq(f.t, One) => VNear("end", EndPoint, f.pos, D("1e-5"), D("1e-2"))
  /\ K = "arc" => OnArc(f.pos)
(* A helper used: f.name on numbers or vectors f.a, with result f.r; w is   *)
(* the size of the numbers involved.                                       *)
VecOk(f) ==
  LET a == f.a
      w == FMaxOf([i \in 1..Len(f.size) |-> FAbs(f.size[i])])
      v(exp) == VNear(f.name, exp, f.r, D("1e-5"), D("1e-6") ** w)
      s(exp) == Near(f.name, exp, f.r, D("1e-5"), D("1e-6") ** w)
      s2(exp) == Near(f.name, exp, f.r, D("1e-5"), D("1e-6") ** Square(w))
      is(exp) == Same(f.name, exp, f.r)
      dir(exp) == VNear(f.name, exp, <<FCos(f.r), FSin(f.r)>>, Zero, D("1e-4"))
  IN CASE f.name = "new" \/ f.name = "copy" -> v(a[1])
       [] f.name = "polar" -> v(DPolar(a[1], a[2]))
       [] f.name = "add" -> v(DAdd(a[1], a[2]))
       [] f.name = "sub" -> v(DSub(a[1], a[2]))
       [] f.name = "mult" -> VNear(f.name, <<a[1][1] ** a[2][1], a[1][2] ** a[2][2]>>, f.r, D("1e-5"), Zero)
       [] f.name = "mid" -> v(DMid(a[1], a[2]))
       [] f.name = "lerp" -> v(DLerp(a[1], a[2], a[3]))
       [] f.name = "scl" -> v(DScl(a[1], a[2]))
       [] f.name = "abs" -> v(<<FAbs(a[1][1]), FAbs(a[1][2])>>)
       [] f.name = "unit" -> VNear(f.name, DUnit(a[1]), f.r, D("1e-5"), D("1e-6"))
       [] f.name = "turn" -> v(DTurn(a[1], a[2]))
       [] f.name = "dot" -> s2(DDot(a[1], a[2]))
       [] f.name = "dst" -> s(DLen(DSub(a[1], a[2])))
       [] f.name = "dst2" -> s2(Square(DLen(DSub(a[1], a[2]))))
       [] f.name = "len" -> s(DLen(a[1]))
       [] f.name = "len2" -> s2(Square(DLen(a[1])))
       [] f.name = "heading" -> dir(DUnit(a[1]))
       [] f.name = "headingDegrees" -> Near(f.name, FAtan2(a[1][2], a[1][1]) ** (D("180") // Pi), f.r, D("1e-5"), D("1e-4"))
       [] f.name = "headingFrom" -> dir(DUnit(DSub(a[1], a[2])))
       [] f.name = "angleAt" -> /\ Near(f.name, CosAt(a[1], a[2], a[3]), FCos(f.r), Zero, D("2e-3"))
                                /\ Holds("angle between 0 and pi", f.r \succeq Zero /\ f.r \preceq D("3.1416"))
       [] f.name = "straight" -> \/ Close(Doubled(a[1], a[2], a[3]), D("0.001"), Zero, D("1e-6") ** Square(w))
                                 \/ is(Doubled(a[1], a[2], a[3]) \prec D("0.001"))
       [] f.name = "clamp" -> s(Clamp(a[1], a[2], a[3]))
       [] f.name = "between" -> s(Lerp(a[1], a[2], a[3]))
       [] f.name = "least" -> is(IMin(a[1], a[2]))
       [] f.name = "most" -> is(IMax(a[1], a[2]))
       [] f.name = "clampWhole" -> is(IMin(a[3], IMax(a[2], a[1])))
       [] f.name = "clampWide" -> is(Clamp(a[1], a[2], a[3]))
       [] f.name = "minWide" -> is(FMin(a[1], a[2]))
       [] f.name = "maxWide" -> is(FMax(a[1], a[2]))
       [] f.name = "whole" -> is(a[1])
       [] f.name = "notNumber" -> is(IsNaN(a[1]))
       [] f.name = "floor" -> s(FFloor(a[1]))
       [] f.name = "ceil" -> s(FCeil(a[1]))
       [] f.name = "round" -> s(FFloor(a[1] ++ Half))
       [] f.name = "mod" -> s(FMod(a[1], a[2]))
       [] f.name = "min" -> s(FMin(a[1], a[2]))
       [] f.name = "max" -> s(FMax(a[1], a[2]))
       [] f.name = "sqrt" -> s(FSqrt(a[1]))
       [] f.name = "pow" -> s(FPow(a[1], a[2]))
       [] f.name = "sin" -> s(FSin(a[1]))
       [] f.name = "cos" -> s(FCos(a[1]))
       [] f.name = "tan" -> Near(f.name, FSin(a[1]), f.r ** FCos(a[1]), D("1e-5"), D("1e-5"))
       [] f.name = "asin" -> Near(f.name, a[1], FSin(f.r), D("1e-5"), D("1e-5")) /\ Holds("asin is a quarter turn at most", FAbs(f.r) \preceq D("1.5708"))
       [] f.name = "acos" -> Near(f.name, a[1], FCos(f.r), D("1e-5"), D("1e-5")) /\ Holds("acos from 0 to half a turn", f.r \succeq Zero /\ f.r \preceq D("3.1416"))
       [] f.name = "atan" -> s(FAtan2(a[1], One))
Conforms ==
  /\ StatusOk(Cases[c])
  /\ (l > 0 /\ e.op = "curve") => Close(len, e.length, D("2e-4"), Grain) \/ Near(<<K, "length">>, LengthOf(pts, One), e.length, D("2e-4"), Grain)
  /\ (l > 0 /\ e.op = "at") => Visit(e)
  /\ (l > 0 /\ e.op = "vec") => VecOk(e)
  /\ (l > 0 /\ e.op = "headings") => Headings(e)
  /\ (l > 0 /\ e.op = "binomial") => Same(<<"binomial", e.n, e.k>>, Binomial(e.n, e.k), e.val)
=============================================================================
