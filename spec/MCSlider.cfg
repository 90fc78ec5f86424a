CONSTANTS Lengths = {7, 55, 140, 260}
          Slides = {1, 2, 3}
          Emit = FALSE
INIT Init
NEXT Next
VIEW View
INVARIANTS Complete BallHere EndsThere Before After InTime
CHECK_DEADLOCK FALSE
