---------------------------- MODULE TraceTiming -----------------------------
(* Recorded timing points: the lines of a file, then what is active when.  *)
EXTENDS Timing, Conf, TLC
VARIABLES pts,     \* points in file order
          fin,     \* the finished list
          base,    \* its uninherited points
          c, l
vars == <<pts, fin, base, c, l>>
Ev == Cases[c].ev
In == Cases[c].in
e  == Ev[l]

Init == c \in 1..NCases /\ l = 0 /\ pts = <<>> /\ fin = <<>> /\ base = <<>>
Is(op) == l < Len(Ev) /\ Ev[l+1].op = op /\ l' = l + 1 /\ UNCHANGED c
LineFields(s) == LET f == Split(s, ",") IN [i \in 1..Len(f) |-> Trim(f[i])]
TrPoint == Is("point") /\ pts' = Append(pts, TimingPoint(LineFields(Ev[l+1].line))) /\ UNCHANGED <<fin, base>>
TrEnd   == Is("end") /\ fin' = Finalized(pts) /\ base' = Uninherited(fin') /\ UNCHANGED pts
TrLook  == Is("look") /\ UNCHANGED <<pts, fin, base>>
Done    == l = Len(Ev) /\ UNCHANGED vars
Next == TrPoint \/ TrEnd \/ TrLook \/ Done

N(what, exp, got) == Near(what, exp, got, D("1e-11"), Zero)
Point(name, p, o) ==
  /\ N(<<name, "time">>, p.time, o.time) /\ N(<<name, "raw beat">>, p.beat, o.raw)
  /\ N(<<name, "base beat">>, p.base, o.base) /\ N(<<name, "ratio">>, Ratio(p), o.ratio)
  /\ N(<<name, "beat length">>, BeatLength(p), o.beat)
  /\ Same(<<name, "signature">>, p.signature, o.signature) /\ Same(<<name, "set">>, p.set, o.set)
  /\ Same(<<name, "index">>, p.index, o.index) /\ N(<<name, "volume">>, p.volume, o.volume)
  /\ Same(<<name, "inherited">>, p.inherited, o.inherited)
  /\ Same(<<name, "kiai">>, p.kiai, o.kiai) /\ Same(<<name, "omit">>, p.omit, o.omit)
Summary(o) ==
  /\ N("lowest bpm", MinBpm(pts), o.min) /\ N("highest bpm", MaxBpm(pts), o.max)
  /\ N("scoring distance", ScoringDistance(In.mult, In.rate), o.scoring)
  /\ Same("has points", <<FALSE, pts # <<>> >>, o.any)
  /\ Point("default point", DefaultPoint, o.default)
Look(o) ==
  LET p == ActiveAt(fin, o.t) IN
  /\ Point(<<"point", FStr(o.t)>>, p, o.point)
  /\ Point(<<"uninherited point", FStr(o.t)>>, ActiveAt(base, o.t), o.orig)
  /\ N("velocity", Velocity(p, In.mult, In.rate), o.velocity)
  /\ N("tick distance", TickDistance(p, In.mult, In.rate), o.tick)
  /\ Near("slider time", SliderTime(p, In.mult, In.rate, In.len), o.slider, D("1e-6"), Zero)
Conforms == /\ StatusOk(Cases[c])
            /\ (l > 0 /\ e.op = "end") => Summary(e.obs)
            /\ (l > 0 /\ e.op = "look") => Look(e)
=============================================================================
