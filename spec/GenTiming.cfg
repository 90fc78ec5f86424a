CONSTANTS Depth = 3
          Emit = TRUE
INIT Init
NEXT Read
INVARIANTS Emitted
CHECK_DEADLOCK FALSE
