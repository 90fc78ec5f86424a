CONSTANTS Maps = {0, 1000, 3010, 2204, 1319, 202}
          Selections = {{}}
          ODs = {5}
          ARs = {9}
          Emit = TRUE
INIT Init
NEXT Next
INVARIANTS Emitted
CHECK_DEADLOCK FALSE
