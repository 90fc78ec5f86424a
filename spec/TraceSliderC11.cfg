CONSTANT Focus = "C11"
INIT Init
NEXT Next
INVARIANT Conforms
CHECK_DEADLOCK TRUE
