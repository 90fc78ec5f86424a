CONSTANTS Depth = 5
          Heights = {0, 1, 2, 5}
          Emit = FALSE
INIT Init
NEXT Next
INVARIANTS Order Growth Bounds More
CHECK_DEADLOCK FALSE
