CONSTANTS Depth = 3
          Steps = {0, 100, 400, 1300}
          Adds = {0, 1, 5}
          Starts = {0, 50, 450, 780}
          Emit = TRUE
INIT Init
NEXT Next
INVARIANTS Emitted
CHECK_DEADLOCK FALSE
