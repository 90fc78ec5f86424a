CONSTANTS Depth = 6
          Emit = FALSE
          Vocabulary = "keys"
INIT Preset
NEXT Next
INVARIANTS ArRule OdRule
PROPERTY IdleLines
CHECK_DEADLOCK FALSE
