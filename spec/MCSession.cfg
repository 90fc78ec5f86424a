CONSTANTS Workers = 3
          Calls = 4
          Shared = FALSE
INIT Init
NEXT Next
INVARIANTS Pure Functional
CHECK_DEADLOCK FALSE
