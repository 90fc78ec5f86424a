---------------------------- MODULE MCDifficulty ----------------------------
(* Every history of up to Depth setter calls over a small set of values.   *)
(* With Emit, each complete history is printed for replay into the code.   *)
EXTENDS Difficulty, Sequences, TLC, Json
CONSTANTS Depth, Emit
VARIABLE hist

Vals    == {"0", "5", "7.6", "10"}
ModSets == {{}, {"HR"}, {"EZ"}, {"DT"}, {"HT"}, {"HR", "DT"}, {"EZ", "HT"}, {"HR", "EZ"}, {"DT", "HT"}, {"HD", "FL"}}
Speeds  == {"1", "1.25"}

Init == DiffInit(Fresh(D("5"), D("4.2"), D("8"), D("9"))) /\ hist = <<>>
Log(op, v, m) == hist' = Append(hist, [op |-> op, val |-> v, mods |-> m])
Next == /\ Len(hist) < Depth
        /\ \/ \E v \in Vals : SetHP(D(v)) /\ Log("hp", v, {})
           \/ \E v \in Vals : SetCS(D(v)) /\ Log("cs", v, {})
           \/ \E v \in Vals : SetOD(D(v)) /\ Log("od", v, {})
           \/ \E v \in Vals : SetAR(D(v)) /\ Log("ar", v, {})
           \/ \E m \in ModSets : SetMods(m) /\ Log("mods", "0", m)
           \/ \E v \in Speeds : SetSpeed(D(v)) /\ Log("speed", v, {})
Emitted == (Emit /\ Len(hist) = Depth) => PrintT("GEN " \o ToJson(hist))
View == <<set, IF Emit THEN hist ELSE <<Len(hist)>>>>
=============================================================================
