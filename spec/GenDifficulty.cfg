CONSTANTS Depth = 2
          Emit = TRUE
INIT Init
NEXT Next
INVARIANTS Emitted
CHECK_DEADLOCK FALSE
