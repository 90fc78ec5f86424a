----------------------------- MODULE Difficulty -----------------------------
(***************************************************************************)
(* Difficulty settings under change: every setter recomputes everything    *)
(* that is derived.                                                        *)
(***************************************************************************)
EXTENDS DifficultyRules

VARIABLES set, der      \* current settings; derived quantities last computed
dvars == <<set, der>>

DiffInit(s) == set = s /\ der = Derive(s)

Change(f, v) == /\ set' = [set EXCEPT ![f] = v]
                /\ der' = Derive(set')
SetHP(v) == Change("hp", v)
SetCS(v) == Change("cs", v)
SetOD(v) == Change("od", v)
SetAR(v) == Change("ar", v)
SetMods(m) == Change("mods", m)
SetSpeed(v) == Change("speed", v)

(* Derived quantities never lag behind the settings.                       *)
UpToDate == der = Derive(set)

(* Sanity of the derivation, checked on the bounded model.                 *)
eps == D("1e-9")
InRange(x, lo, hi) == (lo -- eps) \preceq x /\ x \preceq (hi ++ eps)
SaneWindows == /\ der.hit300 \prec der.hit100
               /\ der.hit100 \prec der.hit50
               /\ InRange(der.radius, D("9.6"), D("54.4"))
               /\ InRange(der.preempt, D("450"), D("1800"))
(* Without speed changes the displayed AR and OD are the adjusted ones.    *)
DisplayedIdentity ==
  (FEq(set.speed, One) /\ set.mods \cap {"DT", "HT"} = {}) =>
     /\ Close(der.arreal, Adjusted(set.ar, set.mods, "1.4"), eps, eps)
     /\ Close(der.odreal, Adjusted(set.od, set.mods, "1.4"), eps, eps)
(* Displayed AR/OD above (below) the adjusted ones exactly when faster.    *)
FasterIsHarder ==
  /\ (der.speed \succ One) => der.arreal \succeq Adjusted(set.ar, set.mods, "1.4")
  /\ (der.speed \prec One) => der.arreal \preceq Adjusted(set.ar, set.mods, "1.4")
=============================================================================
