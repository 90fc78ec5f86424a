CONSTANTS Depth = 6
          Wide = 3
          Kinds = {"single", "step", "peaks", "singlePeaks", "stepPeaks", "moves", "skills", "pp", "ppfail", "ppfresh", "parse", "read", "positions", "timing", "settings"}
          Selections = {"NM", "HR", "EZ", "DTFL", "RX", "HDHR"}
          Maps = {"A", "B"}
          Extents = {"full", "half"}
          Emit = TRUE
INIT Init
NEXT Next
INVARIANTS Emitted
CHECK_DEADLOCK FALSE
