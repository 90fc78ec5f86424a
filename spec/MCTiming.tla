------------------------------ MODULE MCTiming ------------------------------
(* Every list of up to Depth timing lines over a small grid, and a playhead *)
(* moving over it: the active points change exactly where a point stands.   *)
EXTENDS Timing, TLC, Json
CONSTANTS Depth, Emit
VARIABLES lines, \* timing lines in file order
          fin,   \* the finished list, <<>> while reading
          now,   \* playhead: position in Instants, 0 before playing
          act,   \* index of the active point
          orig   \* index (in fin) of the active uninherited point
vars == <<lines, fin, now, act, orig>>

Times == {"0", "10", "20"}
Kinds == {",500", ",300,4,1,0,60,1,0", ",-50,4,1,0,60,0,0", ",-200,3,1,2,5,0,9", ",NaN,4,1,0,60,0,8"}
AllLines == {t \o k : t \in Times, k \in Kinds}
Instants == <<D("-5"), D("0"), D("5"), D("10"), D("15"), D("20"), D("25")>>

Init == lines = <<>> /\ fin = <<>> /\ now = 0 /\ act = 0 /\ orig = 0
Read == /\ now = 0 /\ Len(lines) < Depth /\ fin = <<>>
        /\ \E x \in AllLines : lines' = Append(lines, x)
        /\ UNCHANGED <<fin, now, act, orig>>
Parsed == [i \in 1..Len(lines) |-> TimingPoint(Split(lines[i], ","))]
Start == /\ lines # <<>> /\ fin = <<>>
         /\ fin' = Finalized(Parsed) /\ act' = 1 /\ orig' = 1 /\ now' = 1
         /\ UNCHANGED lines
(* Moving on, every point passed on the way takes over, in its turn.       *)
Passed(t, from) == LET s == {i \in from..Len(fin) : fin[i].time \preceq t}
                   IN IF s = {} THEN from ELSE CHOOSE i \in s : \A j \in s : j <= i
Base(i) == i = 1 \/ ~fin[i].inherited
Play == /\ fin # <<>> /\ now < Len(Instants)
        /\ now' = now + 1
        /\ act' = Passed(Instants[now'], act)
        /\ orig' = LET s == {i \in orig..act' : Base(i)} IN CHOOSE i \in s : \A j \in s : j <= i
        /\ UNCHANGED <<lines, fin>>
Next == Read \/ Start \/ Play
Emitted == (Emit /\ lines # <<>> /\ fin = <<>>) => PrintT("GEN " \o ToJson(lines))

(* The look-ups agree with the playhead at every instant.                  *)
LookUp == now > 0 => /\ ActiveAt(fin, Instants[now]) = fin[act]
                     /\ ActiveAt(Uninherited(fin), Instants[now]).time = fin[orig].time
                     /\ ActiveAt(Uninherited(fin), Instants[now]).beat = fin[orig].beat
(* An inherited point keeps the base beat length of the active uninherited *)
(* point; other points have their own.                                     *)
BaseBeat == now > 0 => fin[act].base = fin[orig].base
Stable == fin # <<>> => /\ Len(fin) = Len(lines)
                        /\ \A i \in 1..Len(fin) - 1 : fin[i].time \preceq fin[i+1].time
RatioBounds == now > 0 => /\ D("0.0999") \preceq Ratio(fin[act]) /\ Ratio(fin[act]) \preceq D("10")
(* Slider velocity times beat length is the base scoring distance.         *)
VelocityRule == (now > 0 /\ BeatLength(fin[act]) \succ Zero) =>
  Close(Velocity(fin[act], D("1.4"), D("2")) ** (BeatLength(fin[act]) // D("1000")), D("140"), D("1e-12"), Zero)
=============================================================================
