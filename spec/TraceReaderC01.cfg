CONSTANT Focus = "C01"
INIT Init
NEXT Next
INVARIANT Conforms
CHECK_DEADLOCK TRUE
