------------------------------ MODULE Stacking ------------------------------
(***************************************************************************)
(* Stacking: objects that follow each other closely at (nearly) the same   *)
(* place are given heights, and drawn shifted by their height.             *)
(*                                                                         *)
(* An object is [kind, start, end, p, q]: times and positions of its start *)
(* and end.  A pass is a sequence of small steps over the heights h, with  *)
(* a pointer i to the object whose stack is being built, a pointer n to    *)
(* the object looked at, and the stack's current end cur.                  *)
(***************************************************************************)
EXTENDS DifficultyRules, Sequences, SequencesExt

Solid(q) == SubSeq(q, 1, Len(q))   \* the same, worked out at once
NearBy(p, q) == VDst(p, q) \prec D("3")
IsSpinner(o) == o.kind = "spinner"
IsSlider(o)  == o.kind = "slider"

(* How long after one object the next still stacks.                        *)
Window(settings, leniency) == FFloor(Derive(settings).preempt ** leniency)

Flat0(os) == Solid([k \in 1..Len(os) |-> 0])

-----------------------------------------------------------------------------
(* Since format 6: from the last object back.  A pass state is [h, i, n,   *)
(* cur]; n = 0 means that i has no stack (any more).                       *)
NewStart(os) == [h |-> Flat0(os), i |-> Len(os) + 1, n |-> 0, cur |-> 0]
NewDone(st)  == st.i <= 1 /\ st.n = 0
NextObject(st, os) ==    \* turn to the object before i, if it can start a stack
  LET i == st.i - 1 IN
  IF i >= 1 /\ st.h[i] = 0 /\ ~IsSpinner(os[i])
  THEN [st EXCEPT !.i = i, !.n = i - 1, !.cur = i]
  ELSE [st EXCEPT !.i = i, !.n = 0]
LookBack(st, os, win) ==
  LET n == st.n  o == os[n]  on == os[st.cur] IN
  IF IsSpinner(o) THEN [st EXCEPT !.n = n - 1]
  ELSE IF IsSlider(os[st.i])
  THEN (* a stack below a slider: everything ending where the stack starts *)
       IF (on.start -- o.start) \succ win THEN [st EXCEPT !.n = 0]
       ELSE IF NearBy(o.q, on.p) THEN [st EXCEPT !.h[n] = st.h[st.cur] + 1, !.cur = n, !.n = n - 1]
       ELSE [st EXCEPT !.n = n - 1]
  ELSE (* a stack of circles, unless it lies at a slider's end *)
       IF (on.start -- o.end) \succ win THEN [st EXCEPT !.n = 0]
       ELSE IF IsSlider(o) /\ NearBy(o.q, on.p)
       THEN LET off == st.h[st.cur] - st.h[n] + 1
            IN [st EXCEPT !.h = Solid([j \in 1..Len(os) |-> IF n < j /\ j <= st.i /\ NearBy(o.q, os[j].p) THEN @[j] - off ELSE @[j]]),
                          !.n = 0]
       ELSE IF NearBy(o.p, on.p) THEN [st EXCEPT !.h[n] = st.h[st.cur] + 1, !.cur = n, !.n = n - 1]
       ELSE [st EXCEPT !.n = n - 1]
NewStep(st, os, win) == IF st.n = 0 THEN NextObject(st, os) ELSE LookBack(st, os, win)

(* Before format 6: from the first object on.  until is the time from which *)
(* the window is measured, under counts objects at the slider's end.        *)
OldStart(os) == [h |-> Flat0(os), i |-> 0, n |-> Len(os) + 1, until |-> Zero, under |-> 0]
OldDone(st, os) == st.i >= Len(os) /\ st.n > Len(os)
TurnTo(st, os) ==
  LET i == st.i + 1 IN
  [st EXCEPT !.i = i, !.until = os[i].end, !.under = 0,
             !.n = IF st.h[i] = 0 \/ IsSlider(os[i]) THEN i + 1 ELSE Len(os) + 1]
LookOn(st, os, win) ==
  LET n == st.n  o == os[n]  oi == os[st.i] IN
  IF (o.start -- win) \succ st.until THEN [st EXCEPT !.n = Len(os) + 1]
  ELSE IF NearBy(o.p, oi.p) THEN [st EXCEPT !.h[st.i] = @ + 1, !.until = o.end, !.n = n + 1]
  ELSE IF NearBy(o.p, oi.q)
  THEN [st EXCEPT !.under = @ + 1, !.h[n] = @ - (st.under + 1), !.until = o.end, !.n = n + 1]
  ELSE [st EXCEPT !.n = n + 1]
OldStep(st, os, win) == IF st.n > Len(os) THEN TurnTo(st, os) ELSE LookOn(st, os, win)

(* Spinners end up without height.                                         *)
Settled(h, os) == [k \in 1..Len(os) |-> IF IsSpinner(os[k]) THEN 0 ELSE h[k]]

(* No pass takes more steps than this: one per object and one per pair.     *)
Steps(os) == [k \in 1..((Len(os) * (Len(os) + 3)) \div 2 + 1) |-> k]
NewRun(st0, os, win) == FoldLeft(LAMBDA st, k : IF NewDone(st) THEN st ELSE NewStep(st, os, win), st0, Steps(os)).h
OldRun(st0, os, win) == FoldLeft(LAMBDA st, k : IF OldDone(st, os) THEN st ELSE OldStep(st, os, win), st0, Steps(os)).h
NewHeights(os, win) == Settled(NewRun(NewStart(os), os, win), os)
OldHeights(os, win) == Settled(OldRun(OldStart(os), os, win), os)
Heights(version, os, win) == IF version >= 6 THEN NewHeights(os, win) ELSE OldHeights(os, win)

-----------------------------------------------------------------------------
(* Where an object at p with height h appears under mods, given radius.    *)
Mirrored(p, mods) == IF "HR" \in mods THEN <<p[1], SSub(D("384"), p[2])>> ELSE p
ShiftBy(h, radius) == SDiv(SMul(I(-h), S(radius)), D("10"))
Appears(p, h, radius, mods) ==
  LET d == ShiftBy(h, radius) IN VAdd(Mirrored(p, mods), <<d, d>>)
(* Of all mods only Hard Rock, then Easy, matter.                          *)
Stance(mods) == IF "HR" \in mods THEN {"HR"} ELSE IF "EZ" \in mods THEN {"EZ"} ELSE {}
=============================================================================
