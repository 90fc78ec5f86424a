CONSTANT Focus = "C24"
INIT Init
NEXT Next
INVARIANT Conforms
CHECK_DEADLOCK TRUE
