CONSTANTS Depth = 4
          Steps = {0, 100, 400, 1300}
          Adds = {0, 1, 5}
          Starts = {0, 50, 450, 780}
          Emit = FALSE
INIT Init
NEXT Next
INVARIANTS Sections StrainSum Window Worth
CHECK_DEADLOCK FALSE
