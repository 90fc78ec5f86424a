CONSTANTS Depth = 4
          Intervals = {90, 100, 180}
          Kinds = {"circle", "slider", "spinner"}
          Jumps = {0, 120}
          Angles = {30}
          Emit = FALSE
INIT Init
NEXT Next
INVARIANTS NonNegative SpinnersGiveNothing NoSliders EvenRhythm Even Faster2 Visible
CHECK_DEADLOCK FALSE
