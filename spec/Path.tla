-------------------------------- MODULE Path --------------------------------
(***************************************************************************)
(* Slider paths: the polyline a type letter and control points stand for,  *)
(* fitted to the declared length and walked by arc length.                 *)
(***************************************************************************)
EXTENDS Curves

Seg(p, q) == <<p, q>>
Chain(pts) == Solid([i \in 1..Len(pts)-1 |-> Seg(pts[i], pts[i+1])])
SegLen(s) == LineLength(s[1], s[2])

LinearPath(pts) == SelectSeq(Chain(pts), LAMBDA s : ~VEq(s[1], s[2]))

(* Bezier pieces are halved until flat, then smoothed.                     *)
Mids(cp) == Solid([i \in 1..Len(cp)-1 |-> VScl(VAdd(cp[i], cp[i+1]), Half)])
RECURSIVE LeftHalf(_), RightHalf(_), Flatten(_)
LeftHalf(cp)  == IF Len(cp) = 1 THEN cp ELSE <<cp[1]>> \o LeftHalf(Mids(cp))
RightHalf(cp) == IF Len(cp) = 1 THEN cp ELSE Append(RightHalf(Mids(cp)), cp[Len(cp)])
Flat(cp) == \A i \in 2..Len(cp)-1 :
  LET d == VAdd(VSub(cp[i-1], VScl(cp[i], Two)), cp[i+1]) IN VDot(d, d) \preceq D("0.25")
Smooth(cp) ==
  LET h == LeftHalf(cp) \o Tail(RightHalf(cp))
  IN <<cp[1]>> \o [i \in 1..Len(cp)-2 |-> VScl(VAdd(VAdd(h[2*i], VScl(h[2*i+1], Two)), h[2*i+2]), D("0.25"))]
Flatten(cp) == IF Flat(cp) THEN (IF Len(cp) = 1 THEN cp ELSE Smooth(cp))
               ELSE Flatten(LeftHalf(cp)) \o Flatten(RightHalf(cp))
BezierPiece(cp) == IF Len(cp) = 2 THEN <<Seg(cp[1], cp[2])>>
                   ELSE Chain(Append(Flatten(cp), cp[Len(cp)]))

(* Pieces end where a point is doubled, except at the very end.            *)
RECURSIVE Pieces(_, _, _)
Pieces(pts, from, i) ==
  IF i > Len(pts) THEN <<>>
  ELSE IF i < Len(pts) - 1 /\ VEq(pts[i], pts[i+1])
  THEN <<SubSeq(pts, from, i)>> \o Pieces(pts, i + 1, i + 2)
  ELSE IF i = Len(pts) THEN <<SubSeq(pts, from, i)>>
  ELSE Pieces(pts, from, i + 1)
BezierPath(pts) == FoldLeft(LAMBDA a, cp : a \o BezierPiece(cp), <<>>, Pieces(pts, 1, 1))

ArcPath(a, b, c) ==
  LET arc == Arc(a, b, c)
      k == ToInt(SMul(SMul(arc.r, arc.sweep), D("0.125")))
      n == IF k < 1 THEN 1 ELSE k
  IN Solid([i \in 1..n |-> Seg(ArcPoint(arc, SDiv(I(i-1), I(n))), ArcPoint(arc, SDiv(I(i), I(n))))])

CatmullDetail == 50
CatmullPath(pts) ==
  LET n == Len(pts)
      piece(i) ==
        LET p1 == IF i > 1 THEN pts[i-1] ELSE pts[i]
            p2 == pts[i]
            p3 == pts[i+1]
            p4 == IF i + 2 <= n THEN pts[i+2] ELSE VAdd(p3, VSub(p3, p2))
            at(k) == CatmullPoint(<<p1, p2, p3, p4>>, SDiv(I(k), I(CatmullDetail)))
        IN [k \in 1..CatmullDetail |-> Seg(at(k-1), at(k))]
  IN FoldLeft(LAMBDA a, i : a \o piece(i), <<>>, [i \in 1..n-1 |-> i])

Polyline(type, pts) ==
  CASE type = "L" -> LinearPath(pts)
    [] type = "B" -> BezierPath(pts)
    [] type = "C" -> CatmullPath(pts)
    [] type = "P" -> IF Len(pts) > 3 THEN BezierPath(pts)
                     ELSE IF Len(pts) < 3 \/ Collinear(pts[1], pts[2], pts[3]) THEN LinearPath(pts)
                     ELSE ArcPath(pts[1], pts[2], pts[3])
    [] OTHER -> <<>>

-----------------------------------------------------------------------------
(* Fitting to the declared length: segments are dropped from the end, and  *)
(* the last one left is cut or extended.                                   *)
Running(lines) == FoldLeft(LAMBDA a, s : Append(a, SAdd(a[Len(a)], SegLen(s))), <<Zero>>, lines)
Total(lines) == LET r == Running(lines) IN r[Len(r)]
RECURSIVE Fit(_, _)
Fit(lines, over) ==
  IF lines = <<>> THEN <<>>
  ELSE LET s == lines[Len(lines)]
           n == SegLen(s)
       IN IF n \succ (over ++ D("0.0001"))
          THEN IF VEq(s[1], s[2]) THEN lines
               ELSE [lines EXCEPT ![Len(lines)] = Seg(s[1], LinePoint(s[1], s[2], SDiv(SSub(n, S(over)), n)))]
          ELSE Fit(SubSeq(lines, 1, Len(lines) - 1), over -- n)

(* A path: its head, its segments and the length up to each vertex.        *)
PathOf(type, pts, want) ==
  LET raw == Polyline(type, pts)
      fitted == IF Total(raw) \succ Zero THEN Fit(raw, Total(raw) -- want) ELSE raw
      run == Running(fitted)
      k == Len(fitted)
  IN [head |-> pts[1], natural |-> Total(raw), lines |-> fitted, run |-> run, length |-> run[Len(run)],
      stretch |-> IF k = 0 \/ FEq(SegLen(raw[k]), Zero) THEN One ELSE SegLen(fitted[k]) // SegLen(raw[k])]

(* The natural path, as long as its control points make it.               *)
OpenPath(type, pts) ==
  LET raw == Polyline(type, pts)
      run == Running(raw)
  IN [head |-> pts[1], natural |-> Total(raw), lines |-> raw, run |-> run, length |-> run[Len(run)],
      stretch |-> One]

RECURSIVE FirstAtLeast(_, _, _, _)
FirstAtLeast(run, w, lo, hi) ==   \* least i in lo..hi with run[i+1] >= w, else hi
  IF lo >= hi THEN hi
  ELSE LET mid == (lo + hi) \div 2
       IN IF run[mid+1] \succeq w THEN FirstAtLeast(run, w, lo, mid) ELSE FirstAtLeast(run, w, mid + 1, hi)

PathPoint(path, t) ==
  IF path.lines = <<>> \/ FEq(path.length, Zero) THEN path.head
  ELSE LET w == SMul(path.length, Clamp(t, Zero, One))
           i == FirstAtLeast(path.run, w, 1, Len(path.lines))
           span == SSub(path.run[i+1], path.run[i])
       IN IF FEq(span, Zero) THEN path.lines[i][1]
          ELSE LinePoint(path.lines[i][1], path.lines[i][2], SDiv(SSub(w, path.run[i]), span))
=============================================================================
