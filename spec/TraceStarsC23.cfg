CONSTANT Focus = "C23"
INIT Init
NEXT Next
INVARIANT Conforms
CHECK_DEADLOCK TRUE
