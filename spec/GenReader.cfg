CONSTANTS Window = 4
          MaxEmpty = 1
INIT Init
NEXT Next
INVARIANT Emitted
CHECK_DEADLOCK FALSE
