------------------------------- MODULE MCMods -------------------------------
EXTENDS Mods
CONSTANT MaxMods
Next == \E m \in AllMods \ sel : Cardinality(sel) < MaxMods /\ Toggle(m)
=============================================================================
