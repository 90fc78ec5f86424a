CONSTANTS Depth = 4
          Emit = FALSE
INIT Init
NEXT Next
VIEW View
INVARIANTS UpToDate SaneWindows DisplayedIdentity FasterIsHarder
CHECK_DEADLOCK FALSE
