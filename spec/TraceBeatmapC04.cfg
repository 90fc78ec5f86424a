CONSTANT Focus = "C04"
INIT Init
NEXT Next
INVARIANT Conforms
CHECK_DEADLOCK TRUE
