------------------------------ MODULE Movement ------------------------------
(***************************************************************************)
(* What the skills are told about the way from object to object.           *)
(*                                                                         *)
(* An object is [kind, start, end, head, tail] - times, and positions as   *)
(* they appear under the mods - and a slider also has                      *)
(*   slides, points (its scoring points [t, rev, pos], pos being where it  *)
(*   appears at t) and last (where it appears at its end time).            *)
(***************************************************************************)
EXTENDS Float64, DifficultyRules, Sequences
LOCAL INSTANCE SequencesExt

Radius50 == D("50")
Follow90 == D("90")
Follow120 == D("120")
Shortest == D("25")

-----------------------------------------------------------------------------
(* The cursor following a slider lazily, one scoring point at a time.      *)
(* A cursor is [at, moved].                                                *)
CursorStart(s) == [at |-> s.head, moved |-> Zero]
LazyTime(s) == s.points[Len(s.points)].t -- s.start
Unit(radius) == Radius50 // radius

Way(s, i, cur) ==     \* the movement to be made for point i
  IF i < Len(s.points) THEN VSub(s.points[i].pos, cur.at)
  ELSE LET true == VSub(s.last, cur.at)
           lazy == VSub(s.points[i].pos, cur.at)
       IN IF VLen(lazy) \prec VLen(true) THEN lazy ELSE true
Leash(s, i) == IF i < Len(s.points) /\ s.points[i].rev THEN Radius50 ELSE Follow90
Visit(s, i, cur, radius) ==
  LET way == Way(s, i, cur)
      len == Unit(radius) ** VLen(way)
      go  == (len -- Leash(s, i)) // len
  IN IF len \succ Leash(s, i)
     THEN [at |-> VAdd(cur.at, VScl(way, S(go))), moved |-> SAdd(cur.moved, S(len ** go))]
     ELSE cur
VisitAll(s, cur, radius) == FoldLeftDomain(LAMBDA at, i : Visit(s, i, at, radius), cur, s.points)
RepeatBonus(s) == S(FPow(One ++ (I(s.slides - 1) // D("2.5")), D("0.4")))
Lazy(s, radius) ==
  LET cur == VisitAll(s, CursorStart(s), radius)
  IN [at |-> cur.at, moved |-> SMul(cur.moved, RepeatBonus(s)), time |-> LazyTime(s)]

-----------------------------------------------------------------------------
(* Between objects.  der: derived difficulty; lazy: the lazy cursor of     *)
(* objects that are sliders.                                               *)
SpinnerKind(o) == o.kind = "spinner"
SliderKind(o)  == o.kind = "slider"
LeftAt(o) == IF SliderKind(o) THEN o.lazy.at ELSE o.head   \* where the cursor is left

Scale(der) ==
  LET base == SDiv(Radius50, S(der.radius))
  IN IF der.radius \prec D("30")
     THEN SMul(base, SAdd(One, SDiv(FMin(SSub(D("30"), S(der.radius)), D("5")), D("50"))))
     ELSE base

Delta(o, last, der) == (o.start -- last.start) // der.speed
Strained(o, last, der) == FMax(Delta(o, last, der), Shortest)
Measured(o, last) == ~SpinnerKind(o) /\ ~SpinnerKind(last)

Jump(o, last, der) == VDst(VScl(o.head, Scale(der)), VScl(LeftAt(last), Scale(der)))
TailJump(o, last, der) == SMul(VDst(last.tail, o.head), Scale(der))
TravelTimeOf(last, der) == FMax(last.lazy.time // der.speed, Shortest)

(* The angle at the last object, given the two before.                     *)
V1(last, lastlast) == VSub(LeftAt(lastlast), last.head)
V2(o, last) == VSub(o.head, LeftAt(last))
AngleOf(o, last, lastlast) ==
  LET a == V1(last, lastlast)  b == V2(o, last)
      det == SSub(SMul(a[1], b[2]), SMul(a[2], b[1]))
  IN S(FAbs(FAtan2(det, VDot(a, b))))

(* before: the objects before o, the latest last.                          *)
Movement(o, before, der) ==
  LET last == before[Len(before)]
      strain == Strained(o, last, der)
      m == Measured(o, last)
      sl == m /\ SliderKind(last)
      jump == IF m THEN Jump(o, last, der) ELSE Zero
      angled == m /\ Len(before) > 1 /\ ~SpinnerKind(before[Len(before) - 1])
  IN [ delta |-> Delta(o, last, der), strain |-> strain,
       start |-> o.start // der.speed, end |-> o.end // der.speed,
       jump |-> jump,
       travel |-> IF sl THEN last.lazy.moved ELSE Zero,
       travelTime |-> IF sl THEN TravelTimeOf(last, der) ELSE Zero,
       moveTime |-> IF sl THEN FMax(strain -- TravelTimeOf(last, der), Shortest)
                    ELSE IF m THEN strain ELSE Zero,
       move |-> IF sl THEN FMax(Zero, FMin(jump -- (Follow120 -- Follow90), TailJump(o, last, der) -- Follow120))
                ELSE jump,
       angle |-> IF angled THEN AngleOf(o, last, before[Len(before) - 1]) ELSE FNaN ]
=============================================================================
