----------------------------- MODULE TracePath ------------------------------
(* Recorded paths: control points, then length and points along the path.  *)
EXTENDS Path, Conf, TLC
VARIABLES path, c, l
vars == <<path, c, l>>
Ev == Cases[c].ev
e  == Ev[l]

Init == c \in 1..NCases /\ l = 0 /\ path = <<>>
Is(op) == l < Len(Ev) /\ Ev[l+1].op = op /\ l' = l + 1 /\ UNCHANGED c
TrBuild == Is("path") /\ LET f == Ev[l+1] IN path' = PathOf(f.type, f.pts, f.want)
TrOpen  == Is("open") /\ LET f == Ev[l+1] IN path' = OpenPath(f.type, f.pts)
TrAt    == Is("at") /\ UNCHANGED path
TrDir   == Is("headings") /\ UNCHANGED path
Done    == l = Len(Ev) /\ UNCHANGED vars
Next == TrBuild \/ TrOpen \/ TrAt \/ TrDir \/ Done

(* Single precision adds up along the natural curve; the direction of a    *)
(* short last segment that is much extended is as uncertain as it is short.*)
Slack == D("4e-3") ++ ((path.natural ** D("4e-6")) ++ (FMax(Zero, path.stretch -- D("4")) ** D("2e-4")))
(* Where a path ought to be as long as declared, whatever its shape.       *)
Exact(f) == f.fits => Near("declared length", f.want, f.length, D("2e-5"), Slack)
Built(f) == /\ Near("path length", path.length, f.length, D("1e-4"), Slack)
            /\ Exact(f)
(* Directions of the segment at a fraction, as unit vectors; near a vertex  *)
(* either segment will do.                                                 *)
Dir(p, q) == <<(p[1] -- q[1]) // DDst(p, q), (p[2] -- q[2]) // DDst(p, q)>>
Way(a) == <<FCos(a), FSin(a)>>
SegsAt(t) ==
  LET w == path.length ** Clamp(t, Zero, One)
      n == Len(path.lines)
  IN {i \in 1..n : (path.run[i] -- D("0.05")) \preceq w /\ w \preceq (path.run[i+1] ++ D("0.05"))}
Sure(i) == SegLen(path.lines[i]) \succ D("0.5")
Directed(f) ==
  LET n == Len(path.lines)
      from(i, a) == VClose(Dir(path.lines[i][1], path.lines[i][2]), Way(a), Zero, D("2e-2"))
      to(i, a) == VClose(Dir(path.lines[i][2], path.lines[i][1]), Way(a), Zero, D("2e-2"))
      at(t) == SegsAt(t)
  IN IF n = 0 THEN Same("heading of an empty path", <<Zero, Zero, Zero, Zero>>, <<f.start, f.end, f.startAt, f.endAt>>)
     ELSE /\ Sure(1) => Holds("start heading", from(1, f.start))
          /\ Sure(n) => Holds("end heading", to(n, f.end))
          /\ (\A i \in at(f.t) : Sure(i)) => Holds(<<"heading at", FStr(f.t)>>, \E i \in at(f.t) : from(i, f.startAt) /\ to(i, f.endAt))
Conforms == /\ StatusOk(Cases[c])
            /\ (l > 0 /\ e.op = "path") => Built(e)
            /\ (l > 0 /\ e.op = "open") => Near("natural length", path.length, e.length, D("1e-4"), Slack)
            /\ (l > 0 /\ e.op = "headings") => Directed(e)
            /\ (l > 0 /\ e.op = "at") => VNear(<<"point at", FStr(e.t)>>, PathPoint(path, e.t), e.pos, D("1e-5"), Slack)
=============================================================================
