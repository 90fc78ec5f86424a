------------------------------ MODULE Effects ------------------------------
(***************************************************************************)
(* What a mod selection does to a map, as far as ratings and performance   *)
(* points can tell.                                                        *)
(***************************************************************************)
EXTENDS ModRules, DifficultyRules

(* The mods that can change a rating.                                      *)
AdjustMask == {"HR", "EZ", "DT", "NC", "HT", "DC", "FL", "RX"}
(* Those that otherwise change what a score is worth.                      *)
ScoreMask == {"HD", "TD", "NF", "SO", "V2"}

Field(mods) == IF "HR" \in mods THEN "HR" ELSE IF "EZ" \in mods THEN "EZ" ELSE "NM"
Effect(set) ==
  [ derived |-> Derive(set), field |-> Field(set.mods),
    relax |-> "RX" \in set.mods, flashlight |-> "FL" \in set.mods ]
ScoreEffect(set) == [rating |-> Effect(set), score |-> set.mods \cap ScoreMask]
=============================================================================
