CONSTANTS Maps = {0, 1000, 3010, 2204, 1319, 202}
          Selections = {{}, {"NF","SO"}, {"HD","FL"}, {"RX"}, {"V2","HR"}, {"TD","DT"}, {"EZ","HT"}}
          ODs = {5, 10}
          ARs = {0, 9, 10}
          Emit = FALSE
INIT Init
NEXT Next
INVARIANTS Good Monotone Ruled Explicit Missed
CHECK_DEADLOCK FALSE
