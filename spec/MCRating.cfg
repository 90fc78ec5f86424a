CONSTANTS Depth = 4
          Kinds = {"circle", "slider", "spinner"}
          Gaps = {0, 150, 500}
          Places = {0, 90}
          Styles = {{}, {"relax"}, {"flashlight"}}
          Size = 4
INIT Init
NEXT Next
INVARIANTS Finite Growing Anywhere Worthwhile
CHECK_DEADLOCK FALSE
