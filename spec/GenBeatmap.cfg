CONSTANTS Depth = 12
          Emit = TRUE
          Vocabulary = "all"
INIT Preset
NEXT Next
INVARIANTS Emitted
CHECK_DEADLOCK FALSE
