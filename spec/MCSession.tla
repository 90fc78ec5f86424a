------------------------------ MODULE MCSession ------------------------------
(* Callers rate prefixes of shared objects, a step at a time in any        *)
(* interleaving, each with a rating in progress of its own.  With Shared   *)
(* they share one, and the answers go wrong.                               *)
EXTENDS Session, Stars, TLC
CONSTANTS Workers, Calls, Shared
VARIABLES rating,   \* caller (or everyone) -> rating in progress
          at,       \* caller -> objects taken so far
          left,     \* calls still to be made
          answers   \* set of <<question, answer>>
vars == <<asking, world, given, rating, at, left, answers>>

Objects == << [kind |-> "circle", points |-> 0, t |-> 100, add |-> 5], [kind |-> "slider", points |-> 2, t |-> 300, add |-> 9],
              [kind |-> "circle", points |-> 0, t |-> 1100, add |-> 2] >>
Styles == [plain |-> [relax |-> FALSE, flashlight |-> FALSE], odd |-> [relax |-> TRUE, flashlight |-> TRUE]]
Questions == {<<s, n>> : s \in DOMAIN Styles, n \in {2, 3}}
Own(w) == IF Shared THEN 0 ELSE w

Take(r, i) ==
  LET o == world[i]  a == I(o.add) IN
  IF i = 1 THEN RateFirst(r, o)
  ELSE RateNext(r, o, I(o.t), I(o.t - world[i-1].t), [aim |-> a, still |-> a, speed |-> a, flash |-> a], One)
RECURSIVE Alone(_, _)
Alone(r, q) == IF r.counts.objects = q[2] THEN RateStars(r, Styles[q[1]])
               ELSE Alone(LET i == r.counts.objects + 1  o == Objects[i]  a == I(o.add) IN
                          IF i = 1 THEN RateFirst(r, o)
                          ELSE RateNext(r, o, I(o.t), I(o.t - Objects[i-1].t), [aim |-> a, still |-> a, speed |-> a, flash |-> a], One), q)
Answer == [q \in Questions |-> Alone(RateStart, q)]

Init == /\ asking = Nobody /\ given = {} /\ world = Objects /\ left = Calls /\ answers = {}
        /\ rating = [w \in 0..Workers |-> RateStart] /\ at = [w \in 1..Workers |-> 0]
Start(w) == /\ left > 0 /\ left' = left - 1
            /\ \E q \in Questions : Ask(w, q)
            /\ rating' = [rating EXCEPT ![Own(w)] = RateStart] /\ at' = [at EXCEPT ![w] = 0]
            /\ UNCHANGED answers
Step(w) == /\ w \in Callers /\ at[w] < asking[w][2]
           /\ at' = [at EXCEPT ![w] = @ + 1]
           /\ rating' = [rating EXCEPT ![Own(w)] = Take(@, at[w] + 1)]
           /\ UNCHANGED <<asking, world, given, left, answers>>
Finish(w) == /\ w \in Callers /\ at[w] = asking[w][2]
             /\ answers' = answers \cup {<<asking[w], RateStars(rating[Own(w)], Styles[asking[w][1]])>>}
             /\ Told(w) /\ UNCHANGED <<rating, at, left>>
Next == \E w \in 1..Workers : Start(w) \/ Step(w) \/ Finish(w)

Pure == /\ world = Objects /\ given = {x[1] : x \in answers}
        /\ \A x \in answers : x[2] = Answer[x[1]]
Functional == \A x, y \in answers : x[1] = y[1] => x[2] = y[2]
=============================================================================
