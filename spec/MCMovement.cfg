CONSTANTS Depth = 3
          Coords = {0, 40, 200}
INIT Init
NEXT Next
INVARIANTS Within Lazily Moved Exact BigStep Sane
CHECK_DEADLOCK FALSE
