CONSTANTS Depth = 5
          Emit = FALSE
          Vocabulary = "objects"
INIT Preset
NEXT Next
INVARIANTS Totals OrderOk ComboOk
CHECK_DEADLOCK FALSE
