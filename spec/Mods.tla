-------------------------------- MODULE Mods --------------------------------
EXTENDS ModRules

(* The machine: a player toggles mods one at a time.                       *)
VARIABLE sel

ModsInit  == sel = {}
Toggle(m) == sel' = IF m \in sel THEN sel \ {m} ELSE sel \cup {m}
ModsNext  == \E m \in AllMods : Toggle(m)

Chars(toks) == FoldLeft(LAMBDA acc, t : acc \o t, <<>>, toks)

(* Reading back what was written gives the selection, implied mods added;  *)
(* nothing named is redundant; compatibility only shrinks with more mods.  *)
WrittenTokens == ToSet(Named(sel))
RoundTrip     == Closure(WrittenTokens) = Closure(sel)
NothingLost   == sel \subseteq Closure(WrittenTokens)
CompatDownward == Compatible(sel) => \A m \in sel : Compatible(sel \ {m})
MultiplierSane == Zero \preceq ScoreMultiplier(sel) /\ ScoreMultiplier(sel) \prec Two
NameCount     == Len(Full(sel)) = Len(Named(sel))
=============================================================================
