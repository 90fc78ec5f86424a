CONSTANTS Lengths = {7, 55, 140, 260}
          Slides = {1, 2, 3}
          Emit = TRUE
INIT Init
NEXT Next
VIEW View
CONSTRAINT AtStart
INVARIANTS Emitted
CHECK_DEADLOCK FALSE
