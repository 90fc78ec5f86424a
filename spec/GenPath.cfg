CONSTANTS Grid = {0, 60, 130}
          MaxPoints = 3
          Steps = 8
          Emit = TRUE
INIT Init
NEXT Stay
VIEW View
INVARIANTS Emitted
CHECK_DEADLOCK FALSE
