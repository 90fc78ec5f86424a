CONSTANTS Toggled = {"HR", "EZ", "DT", "NC", "HT", "FL", "RX", "HD", "SO", "V2", "PF", "K4"}
          Speeds = {"1", "1.25"}
INIT Init
NEXT Next
INVARIANTS Masked ScoreMasked OneStep Timed Telling
CHECK_DEADLOCK FALSE
