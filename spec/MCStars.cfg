CONSTANTS Depth = 4
          Kinds = {"circle", "slider", "spinner"}
          Gaps = {100, 900}
          Adds = {1, 20}
          Styles = {{}, {"relax"}, {"flashlight"}, {"relax", "flashlight"}}
INIT Init
NEXT Next
INVARIANTS Counted Sound Grows Styled Aligned
CHECK_DEADLOCK FALSE
