-------------------------------- MODULE Conf --------------------------------
(***************************************************************************)
(* Common ground of the trace acceptors: the recorded executions, and      *)
(* comparisons that name what differs.                                     *)
(*                                                                         *)
(* A trace file is a JSON array of cases [id, status, in, ev]: `in` are    *)
(* the inputs of the execution, `ev` the recorded events, `status` is "ok" *)
(* unless the code panicked or did not finish.                             *)
(***************************************************************************)
EXTENDS Float64
LOCAL INSTANCE TLC
LOCAL INSTANCE Sequences
LOCAL INSTANCE Naturals
LOCAL INSTANCE Json
LOCAL INSTANCE IOUtils

Cases == JsonDeserialize(IOEnv.TRACE_FILE)
NCases == Len(Cases)

LOCAL Fail(msg) == PrintT("MISMATCH " \o ToString(msg)) /\ FALSE

Same(what, exp, got) ==
  IF exp = got THEN TRUE ELSE Fail(<<what, "expected", exp, "observed", got>>)

Near(what, exp, got, rel, abs) ==
  IF Close(exp, got, rel, abs) THEN TRUE
  ELSE Fail(<<what, "expected", FStr(exp), "observed", FStr(got)>>)

VNear(what, exp, got, rel, abs) ==
  IF VClose(exp, got, rel, abs) THEN TRUE
  ELSE Fail(<<what, "expected", VStr(exp), "observed", VStr(got)>>)

NearSeq(what, exp, got, rel, abs) ==
  /\ Same(<<what, "length">>, Len(exp), Len(got))
  /\ \A i \in 1..Len(exp) : Near(<<what, i>>, exp[i], got[i], rel, abs)

Holds(what, cond) == IF cond THEN TRUE ELSE Fail(what)

StatusOk(c) == Same("status", "ok", c.status)
=============================================================================
