------------------------------ MODULE GenSession ------------------------------
(* Scripts of sessions: batches of questions asked at the same time.       *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Depth, Wide, Kinds, Selections, Maps, Extents, Emit
VARIABLES script, done
Question == {<<m, k, s, x>> : m \in Maps, k \in Kinds, s \in Selections, x \in Extents}
RECURSIVE Size(_)
Size(b) == IF b = <<>> THEN 0 ELSE Len(b[1]) + Size(Tail(b))
Init == script = <<>> /\ done = FALSE
Next == \/ Size(script) = Depth /\ ~done /\ done' = TRUE /\ UNCHANGED script
        \/ /\ Size(script) < Depth /\ UNCHANGED done
           /\ \E q \in Question :
             \/ script' = Append(script, <<q>>)
             \/ script # <<>> /\ Len(script[Len(script)]) < Wide /\ script' = [script EXCEPT ![Len(script)] = Append(@, q)]
Emitted == (Emit /\ done) => PrintT("GEN " \o ToJson(script))
=============================================================================
