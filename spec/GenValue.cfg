CONSTANTS Depth = 4
          Heights = {0, 1, 2, 5}
          Emit = TRUE
INIT Init
NEXT Next
INVARIANTS Emitted
CHECK_DEADLOCK FALSE
