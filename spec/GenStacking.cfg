CONSTANTS Depth = 3
          Emit = TRUE
          Shapes = {"A", "B", "C", "AC", "CA", "AA", "SP"}
          Gaps = {250, 450}
INIT Init
NEXT Put
INVARIANTS Emitted
CHECK_DEADLOCK FALSE
