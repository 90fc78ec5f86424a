CONSTANTS Depth = 4
          Intervals = {90}
          Kinds = {"circle"}
          Jumps = {0, 70, 120}
          Angles = {0, 60, 140}
          Emit = TRUE
INIT Init
NEXT Next
INVARIANTS Emitted
CHECK_DEADLOCK FALSE
