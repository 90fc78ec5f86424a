CONSTANT Focus = "C07"
INIT Init
NEXT Next
INVARIANT Conforms
CHECK_DEADLOCK TRUE
