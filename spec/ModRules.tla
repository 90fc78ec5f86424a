------------------------------ MODULE ModRules ------------------------------
(***************************************************************************)
(* Mod selections.  A selection is a set of two-letter acronyms; bit k of  *)
(* the integer form stands for Acronyms[k+1].                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Float64

Acronyms == <<"NF", "EZ", "TD", "HD", "HR", "SD", "DT", "RX", "HT", "NC", "FL",
              "AT", "SO", "AP", "PF", "K4", "K5", "K6", "K7", "K8", "FI", "RN",
              "CN", "TG", "K9", "K0", "K1", "K3", "K2", "V2", "LM", "DC">>

FullNames == <<"NoFail", "Easy", "TouchDevice", "Hidden", "HardRock", "SuddenDeath",
               "DoubleTime", "Relax", "HalfTime", "Nightcore", "Flashlight",
               "Autoplay", "SpunOut", "Relax2", "Perfect", "Key4", "Key5", "Key6",
               "Key7", "Key8", "FadeIn", "Random", "Cinema", "Target", "Key9",
               "KeyCoop", "Key1", "Key3", "Key2", "ScoreV2", "LastMod", "Daycore">>

AllMods == {Acronyms[i] : i \in 1..Len(Acronyms)}

BitsToMods(bits) == {Acronyms[bits[i] + 1] : i \in 1..Len(bits)}

(* A more specific mod implies the general one it is played as.            *)
ImpliedBy(m) == CASE m = "NC" -> {"DT"}
                  [] m = "PF" -> {"SD"}
                  [] m = "DC" -> {"HT"}
                  [] OTHER    -> {}
Closure(sel) == sel \cup UNION {ImpliedBy(m) : m \in sel}

(* Mods that a written selection does not name because a more specific     *)
(* selected mod stands for them.                                           *)
Hidden(sel) == UNION {ImpliedBy(m) : m \in sel}
Named(sel)  == SelectSeq(Acronyms, LAMBDA a : a \in sel /\ a \notin Hidden(sel))

Short(sel) == FoldLeft(LAMBDA acc, a : acc \o a, "", Named(sel))
Full(sel)  == LET keep(i) == Acronyms[i] \in sel /\ Acronyms[i] \notin Hidden(sel)
                  idx == SelectSeq([i \in 1..Len(Acronyms) |-> i], keep)
              IN [i \in 1..Len(idx) |-> FullNames[idx[i]]]

(* Reading a text, given as a sequence of characters: two at a time.       *)
Tokens(chars) == [i \in 1..(Len(chars) \div 2) |-> chars[2*i - 1] \o chars[2*i]]
Read(chars)   == Closure(ToSet(Tokens(chars)) \cap AllMods)

HasAny(sel, ms) == sel \cap ms # {}

Compatible(sel) ==
  ~ ( \/ "TG" \in sel
      \/ {"HR", "EZ"} \subseteq sel
      \/ HasAny(sel, {"NC", "DT"}) /\ HasAny(sel, {"HT", "DC"})
      \/ HasAny(sel, {"PF", "SD"}) /\ "NF" \in sel
      \/ {"RX", "AP"} \subseteq sel
      \/ HasAny(sel, {"RX", "AP"}) /\ HasAny(sel, {"SD", "PF", "AT", "NF"})
      \/ {"AP", "SO"} \subseteq sel )

ScoreMultiplier(sel) ==
  LET f(cond, x) == IF cond THEN D(x) ELSE One
      v2 == "V2" \in sel
  IN IF HasAny(sel, {"RX", "AP"}) THEN Zero
     ELSE f("NF" \in sel /\ ~v2, "0.5") ** f("EZ" \in sel, "0.5")
          ** f("HT" \in sel, "0.3")     ** f("HD" \in sel, "1.06")
          ** f("HR" \in sel, IF v2 THEN "1.10" ELSE "1.06")
          ** f("DT" \in sel, IF v2 THEN "1.20" ELSE "1.12")
          ** f("FL" \in sel, "1.12")    ** f("SO" \in sel, "0.9")
=============================================================================
