CONSTANTS Depth = 3
          Emit = FALSE
INIT Init
NEXT Next
INVARIANTS LookUp BaseBeat Stable RatioBounds VelocityRule
CHECK_DEADLOCK FALSE
