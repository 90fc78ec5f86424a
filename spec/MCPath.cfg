CONSTANTS Grid = {0, 60, 130}
          MaxPoints = 3
          Steps = 8
          Emit = FALSE
INIT Init
NEXT Next
VIEW View
INVARIANTS StartsAtHead DeclaredLength ArcLength RawEnd RawStart Joined BezierNear ArcOnCircle CatmullThrough LinearThrough
CHECK_DEADLOCK FALSE
