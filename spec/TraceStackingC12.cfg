CONSTANT Focus = "C12"
INIT Init
NEXT Next
INVARIANT Conforms
CHECK_DEADLOCK TRUE
