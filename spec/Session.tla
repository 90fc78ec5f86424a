------------------------------ MODULE Session ------------------------------
(***************************************************************************)
(* A session: callers ask questions about shared beatmaps under shared     *)
(* difficulty settings, one after the other or at the same time.  What a   *)
(* question is answered depends on the question alone, asking leaves the   *)
(* world as it was, and an answer given stays what it was.                 *)
(*                                                                         *)
(* A question is a key; the world is whatever can be observed about the    *)
(* beatmaps and settings.                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES asking,   \* caller -> its open question
          world,
          given     \* the questions answered so far
sessionVars == <<asking, world, given>>
Callers == DOMAIN asking
Nobody == [w \in {} |-> ""]

Ask(w, q) == /\ w \notin Callers
             /\ asking' = [v \in Callers \cup {w} |-> IF v = w THEN q ELSE asking[v]]
             /\ UNCHANGED <<world, given>>
Told(w)   == /\ w \in Callers
             /\ asking' = [v \in Callers \ {w} |-> asking[v]]
             /\ given' = given \cup {asking[w]}
             /\ UNCHANGED world
(* An answer, once given, is read again. *)
Again(q)  == q \in given /\ UNCHANGED sessionVars
=============================================================================
