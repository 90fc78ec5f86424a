CONSTANTS Depth = 4
          Emit = FALSE
          Vocabulary = "all"
INIT Preset
NEXT Next
VIEW View
INVARIANTS OneWay ArRule OdRule Totals OrderOk ComboOk
PROPERTY IdleLines
CHECK_DEADLOCK FALSE
