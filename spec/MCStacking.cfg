CONSTANTS Depth = 3
          Emit = FALSE
          Shapes = {"A", "B", "C", "AC", "CA", "AA", "SP"}
          Gaps = {250, 450}
INIT Init
NEXT Next
INVARIANTS BigStep Pointers Piles Floating Spinners SliderEnd Lonely Shifts
CHECK_DEADLOCK FALSE
