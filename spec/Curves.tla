------------------------------- MODULE Curves -------------------------------
(***************************************************************************)
(* Curve primitives on single-precision points.                            *)
(***************************************************************************)
EXTENDS Float64, Integers, Sequences, SequencesExt

(* The same sequence, its elements worked out once.                        *)
Solid(q) == SubSeq(q, 1, Len(q))

(* Lines.                                                                  *)
LinePoint(p, q, t) == VLerp(p, q, t)
LineLength(p, q)   == VDst(p, q)
(* Direction from q to p.                                                  *)
Heading(p, q) == S(FAtan2(SSub(p[2], q[2]), SSub(p[1], q[1])))

-----------------------------------------------------------------------------
(* Binomials by Pascal's rule: row n of the triangle.                      *)
PascalRow(n) ==
  LET below(row, k) == [i \in 1..(Len(row)+1) |->
                          (IF i = 1 THEN Zero ELSE row[i-1]) ++ (IF i = Len(row)+1 THEN Zero ELSE row[i])]
  IN FoldLeft(below, <<One>>, [k \in 1..n |-> k])
Binomial(n, k) == IF k < 0 \/ k > n THEN Zero ELSE PascalRow(n)[k+1]

(* De Casteljau: repeated interpolation between neighbouring points.       *)
RECURSIVE BezierPoint(_, _)
BezierPoint(cp, t) ==
  IF Len(cp) = 1 THEN cp[1]
  ELSE BezierPoint(Solid([i \in 1..Len(cp)-1 |-> <<Lerp(cp[i][1], cp[i+1][1], t), Lerp(cp[i][2], cp[i+1][2], t)>>]), t)
(* The Bernstein-weighted mean of the control points.                      *)
PowN(x, n) == IF n = 0 THEN One ELSE FPow(x, I(n))
Bernstein(i, n, t) == Binomial(n, i) ** (PowN(t, i) ** PowN(One -- t, n - i))
BernsteinPoint(cp, t) ==
  FoldLeft(LAMBDA a, i : LET w == Bernstein(i - 1, Len(cp) - 1, t)
                         IN <<a[1] ++ (cp[i][1] ** w), a[2] ++ (cp[i][2] ** w)>>,
           <<Zero, Zero>>, [i \in 1..Len(cp) |-> i])

Sum(s) == FoldLeft(FAdd, Zero, s)
DDst(p, q) == FSqrt(Square(q[1] -- p[1]) ++ Square(q[2] -- p[2]))
ChordSum(pts) == LET q == Solid(pts) IN Sum([i \in 1..Len(q)-1 |-> DDst(q[i], q[i+1])])


(* Length traced through n equal steps of the parameter.                   *)
StepsFor(len) == ToInt(FCeil(len))
BezierTraced(cp, n) ==
  IF n = 0 THEN Zero ELSE ChordSum([k \in 1..(n+1) |-> BezierPoint(cp, I(k-1) // I(n))])
BezierLength(cp) == BezierTraced(cp, StepsFor(ChordSum(cp)))

-----------------------------------------------------------------------------
(* The circular arc from a over b to c.                                    *)
Cross(a, b, c) == FSub(FMul(b[2] -- a[2], c[1] -- a[1]), FMul(b[1] -- a[1], c[2] -- a[2]))
Collinear(a, b, c) ==
  S(FAbs(SSub(SMul(SSub(b[2], a[2]), SSub(c[1], a[1])), SMul(SSub(b[1], a[1]), SSub(c[2], a[2]))))) \prec S(D("0.001"))

SPi == S(Pi)
STwoPi == SMul(Two, SPi)
RECURSIVE Beyond(_, _)
Beyond(x, lo) == IF x \prec lo THEN Beyond(SAdd(x, STwoPi), lo) ELSE x
Arc(a, b, c) ==
  LET sq(p) == VDot(p, p)
      d == SMul(Two, SAdd(SAdd(SMul(a[1], SSub(b[2], c[2])), SMul(b[1], SSub(c[2], a[2]))), SMul(c[1], SSub(a[2], b[2]))))
      aa == sq(a) bb == sq(b) cc == sq(c)
      cx == SAdd(SAdd(SMul(aa, SSub(b[2], c[2])), SMul(bb, SSub(c[2], a[2]))), SMul(cc, SSub(a[2], b[2])))
      cy == SAdd(SAdd(SMul(aa, SSub(c[1], b[1])), SMul(bb, SSub(a[1], c[1]))), SMul(cc, SSub(b[1], a[1])))
      centre == VScl(<<cx, cy>>, SDiv(One, d))
      start == Heading(a, centre)
      sweep == SSub(Beyond(Heading(c, centre), start), start)
      ac == VSub(c, a)
      other == VDot(<<ac[2], FNeg(ac[1])>>, VSub(b, a)) \prec Zero   \* b lies the other way round
  IN [ centre |-> centre, r |-> VDst(a, centre), start |-> start,
       sweep  |-> IF other THEN SSub(STwoPi, sweep) ELSE sweep,
       dir    |-> IF other THEN FNeg(One) ELSE One ]
ArcPoint(arc, t) ==
  LET w == SAdd(arc.start, SMul(SMul(arc.dir, t), arc.sweep))
  IN VAdd(<<SMul(S(FCos(w)), arc.r), SMul(S(FSin(w)), arc.r)>>, arc.centre)

-----------------------------------------------------------------------------
(* The Catmull-Rom segment from p2 to p3.                                  *)
CatmullCoord(a, b, c, d, t) ==
  LET t2 == SMul(t, t)
      t3 == SMul(t, t2)
      k0 == SMul(Two, b)
      k1 == SMul(SAdd(FNeg(a), c), t)
      k2 == SMul(SSub(SAdd(SSub(SMul(Two, a), SMul(D("5"), b)), SMul(D("4"), c)), d), t2)
      k3 == SMul(SAdd(SSub(SAdd(FNeg(a), SMul(D("3"), b)), SMul(D("3"), c)), d), t3)
  IN SMul(Half, SAdd(SAdd(SAdd(k0, k1), k2), k3))
CatmullPoint(p, t) == <<CatmullCoord(p[1][1], p[2][1], p[3][1], p[4][1], t),
                        CatmullCoord(p[1][2], p[2][2], p[3][2], p[4][2], t)>>
CatmullTraced(p, n) ==
  IF n = 0 THEN Zero ELSE ChordSum([k \in 1..(n+1) |-> CatmullPoint(p, S(I(k-1) // I(n)))])
CatmullLength(p) == CatmullTraced(p, StepsFor(DDst(p[2], p[3])))
(* The same as a weighted sum of the points.                               *)
CatmullBasis(p, t) ==
  LET t2 == t ** t
      t3 == t2 ** t
      w == << Half ** (((Two ** t2) -- t3) -- t),
              Half ** (((D("3") ** t3) -- (D("5") ** t2)) ++ Two),
              Half ** (((D("4") ** t2) -- (D("3") ** t3)) ++ t),
              Half ** (t3 -- t2) >>
      at(k) == Sum([i \in 1..4 |-> w[i] ** p[i][k]])
  IN <<at(1), at(2)>>
=============================================================================
