CONSTANTS Grid = {0, 57, 60, 160}
          Depth = 2
INIT Init
NEXT Next
INVARIANTS Turning Polar Middle Triangle Cosines Units Straight
CHECK_DEADLOCK FALSE
