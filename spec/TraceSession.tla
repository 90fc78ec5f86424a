----------------------------- MODULE TraceSession -----------------------------
(* Recorded sessions.  In.alone has the answer to every question asked by   *)
(* itself in a fresh process.                                              *)
EXTENDS Session, Conf, TLC
VARIABLES c, l
vars == <<asking, world, given, c, l>>
Ev == Cases[c].ev
In == Cases[c].in
e  == Ev[l]
Alone(q) == In.alone[q]

Init == c \in 1..NCases /\ l = 0 /\ asking = Nobody /\ given = {} /\ world = [m \in {"A", "B"} |-> Alone(m \o "/look/NM/full")]
Is(op) == l < Len(Ev) /\ Ev[l+1].op = op /\ l' = l + 1 /\ UNCHANGED c
TrAsk == Is("ask") /\ Ask(Ev[l+1].who, Ev[l+1].q)
TrTold == /\ Is("told") /\ Told(Ev[l+1].who)
          /\ LET q == asking[Ev[l+1].who] IN Same(q, Alone(q), Ev[l+1].got)
TrLook == Is("look") /\ Callers = {} /\ UNCHANGED sessionVars
          /\ Same(<<"shared map", Ev[l+1].map>>, world[Ev[l+1].map], Ev[l+1].got)
TrKept == /\ Is("kept") /\ Again(Ev[l+1].q)
          /\ Same(<<"kept", Ev[l+1].q>>, Alone(Ev[l+1].q), Ev[l+1].got)
Done == l = Len(Ev) /\ UNCHANGED vars
Next == TrAsk \/ TrTold \/ TrKept \/ TrLook \/ Done
Conforms == StatusOk(Cases[c])
=============================================================================
