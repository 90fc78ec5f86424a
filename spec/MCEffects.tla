----------------------------- MODULE MCEffects ------------------------------
(* A player toggling mods and turning the speed.                           *)
EXTENDS Effects, TLC
CONSTANTS Toggled, Speeds
VARIABLES set, was     \* settings now and before the last change
vars == <<set, was>>

Base == Settings(D("6"), D("4.2"), D("8"), D("9.3"), {}, One)
Init == set = Base /\ was = Base
Toggle(m) == set' = [set EXCEPT !.mods = IF m \in @ THEN @ \ {m} ELSE @ \cup {m}]
Turn(v) == set' = [set EXCEPT !.speed = D(v)]
Next == was' = set /\ ((\E m \in Toggled : Toggle(m)) \/ (\E v \in Speeds : Turn(v)))

(* Only the adjusting mods change a rating, only those and the scoring     *)
(* mods a score.                                                           *)
Masked == Effect(set) = Effect([set EXCEPT !.mods = @ \cap AdjustMask])
ScoreMasked == ScoreEffect(set) = ScoreEffect([set EXCEPT !.mods = @ \cap (AdjustMask \cup ScoreMask)])
OneStep == LET d == (set.mods \ was.mods) \cup (was.mods \ set.mods) IN
  (d # {} /\ d \cap AdjustMask = {}) => Effect(set) = Effect(was)
(* Double and half time are nothing but speed.                             *)
Timed == LET m == set.mods \ {"DT", "HT", "NC", "DC"} IN
  /\ "DT" \in set.mods => Effect(set) = Effect([set EXCEPT !.mods = m, !.speed = D("1.5") ** @])
  /\ ("HT" \in set.mods /\ "DT" \notin set.mods) => Effect(set) = Effect([set EXCEPT !.mods = m, !.speed = D("0.75") ** @])
  /\ "DT" \in set.mods => Effect(set) = Effect([set EXCEPT !.mods = @ \ {"HT"}])
(* Every adjusting mod that does something by itself can be told.          *)
Telling == \A m \in {"HR", "EZ", "DT", "FL", "RX"} :
  (m \in set.mods /\ set.mods \cap {"HT"} = {}) => Effect(set) # Effect([set EXCEPT !.mods = @ \ {m}])
=============================================================================
