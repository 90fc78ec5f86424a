CONSTANT MaxMods = 3
INIT ModsInit
NEXT Next
INVARIANTS RoundTrip NothingLost CompatDownward MultiplierSane NameCount
CHECK_DEADLOCK FALSE
