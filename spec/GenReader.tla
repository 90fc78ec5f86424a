----------------------------- MODULE GenReader ------------------------------
(* Every way of delivering the last Window bytes of a source: in pieces of *)
(* any size, with empty reads in between, ending in end-of-file or error,  *)
(* alone or together with the last bytes.                                  *)
EXTENDS Reader, TLC, Json
CONSTANTS Window, MaxEmpty
VARIABLE hist
Init == ReaderInit(Window) /\ hist = <<>>
Log(n, k) == hist' = Append(hist, <<n, k>>)
Empties == Cardinality({i \in 1..Len(hist) : hist[i] = <<0, "ok">>})
Next == \/ \E n \in 1..Window : Deliver(n) /\ Log(n, "ok")
        \/ Empties < MaxEmpty /\ Deliver(0) /\ Log(0, "ok")
        \/ \E n \in 0..Window : DeliverEof(n) /\ Log(n, "eof")
        \/ \E n \in 0..Window : Fail(n) /\ Log(n, "fail")
Emitted == fate # "open" => PrintT("GEN " \o ToJson(hist))
=============================================================================
