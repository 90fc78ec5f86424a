CONSTANTS Grid = {0, 50, 120}
          Steps = 8
INIT Init
NEXT Next
INVARIANTS BezierForms BezierEnds BezierShort CatmullForms CatmullEnds ArcEnds ArcMiddle ArcLengthOk
CHECK_DEADLOCK FALSE
