CONSTANT Focus = "C22"
INIT Init
NEXT Next
INVARIANT Conforms
CHECK_DEADLOCK TRUE
