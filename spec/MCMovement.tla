----------------------------- MODULE MCMovement -----------------------------
(* A cursor led through every short sequence of points on a small grid, at *)
(* two circle sizes; then measured towards a next object.                  *)
EXTENDS Movement, TLC, Integers
CONSTANTS Depth, Coords
VARIABLES s, cur, k, way, r
vars == <<s, cur, k, way, r>>

P(x, y) == <<I(x), I(y)>>
Grid == {P(x, y) : x \in Coords, y \in {0, 60}}
Init == /\ s = [kind |-> "slider", start |-> Zero, end |-> D("1000"), head |-> P(0, 0), tail |-> P(0, 0),
                slides |-> 1, points |-> <<>>, last |-> P(0, 0)]
        /\ cur = CursorStart(s) /\ k = 0 /\ way = <<>> /\ r \in {D("50"), D("25")}
Grow == /\ k = 0 /\ Len(s.points) < Depth
        /\ \E p \in Grid, rev \in BOOLEAN :
             s' = [s EXCEPT !.points = Append(@, [t |-> I(100 * (Len(@) + 1)), rev |-> rev, pos |-> p])]
        /\ UNCHANGED <<cur, k, way, r>>
EndAt == /\ k = 0 /\ s.points # <<>>
         /\ \E p \in Grid, n \in {1, 3} : s' = [s EXCEPT !.last = p, !.tail = p, !.slides = n]
         /\ k' = 1 /\ way' = <<cur.at>> /\ UNCHANGED <<cur, r>>
Move == /\ k > 0 /\ k <= Len(s.points)
        /\ cur' = Visit(s, k, cur, r) /\ k' = k + 1 /\ way' = Append(way, cur'.at)
        /\ UNCHANGED <<s, r>>
Next == Grow \/ EndAt \/ Move

N == Len(s.points)
Eps == D("1e-2")
Dist(p, q) == VDst(p, q) ** Unit(r)
(* After a visit the cursor is within the leash of the point (the last     *)
(* one: of the nearer of the two ends), and it moved straight towards it   *)
(* no farther than that.                                                   *)
Within == k > 1 => LET i == k - 1 IN
  IF i < N THEN Dist(cur.at, s.points[i].pos) \preceq (Leash(s, i) ++ Eps)
  ELSE \/ Dist(cur.at, s.points[i].pos) \preceq (Follow90 ++ Eps)
       \/ Dist(cur.at, s.last) \preceq (Follow90 ++ Eps)
Lazily == k > 1 => LET i == k - 1  from == way[k-1] IN
  from # cur.at => \E p \in {s.points[i].pos, s.last} :
     /\ Close(Dist(from, cur.at) ++ Dist(cur.at, p), Dist(from, p), Zero, Eps)
     /\ Close(Dist(cur.at, p), Leash(s, i), Zero, Eps)
(* What was moved is the length of the way.                                *)
RECURSIVE Sum(_, _)
Sum(w, i) == IF i >= Len(w) THEN Zero ELSE Dist(w[i], w[i+1]) ++ Sum(w, i + 1)
Moved == k > 0 => Close(cur.moved, Sum(way, 1), Zero, Eps)
(* Never farther than visiting every point exactly.                        *)
Exact == k > N /\ k > 0 => cur.moved \preceq (Sum(<<s.head>> \o [i \in 1..N |-> IF i = N THEN s.last ELSE s.points[i].pos], 1) ++ Eps)
BigStep == k > N /\ k > 0 => LET z == Lazy(s, r) IN
  z.at = cur.at /\ (s.slides = 1 => z.moved = cur.moved) /\ (s.slides > 1 => z.moved \succeq cur.moved)

(* Measuring: a next object after a slider or circle.                      *)
Der == [radius |-> r, speed |-> One]
Circle(p, t) == [kind |-> "circle", start |-> t, end |-> t, head |-> p, tail |-> p]
Full == [kind |-> s.kind, start |-> s.start, end |-> s.end, head |-> s.head, tail |-> s.tail, lazy |-> Lazy(s, r)]
Sane == k > N /\ k > 0 => \A p \in {P(0, 0), P(100, 60)}, t \in {D("10"), D("500")} :
  LET m == Movement(Circle(p, t), <<Full>>, Der)
      b == Movement(Circle(p, t), <<Circle(p, Zero), Full>>, Der)
      c == Movement(Circle(p, t), <<Circle(s.head, Zero)>>, Der)
  IN /\ m.strain \succeq Shortest /\ m.moveTime \succeq Shortest /\ m.travelTime \succeq Shortest
     /\ m.move \succeq Zero /\ m.move \preceq (m.jump ++ Eps)
     /\ IsNaN(m.angle) /\ ~IsNaN(b.angle) /\ b.angle \succeq Zero /\ b.angle \preceq (Pi ++ Eps)
     /\ FEq(c.move, c.jump) /\ FEq(c.travel, Zero) /\ FEq(c.moveTime, c.strain)
=============================================================================
