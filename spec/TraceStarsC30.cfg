CONSTANT Focus = "C30"
INIT Init
NEXT Next
INVARIANT Conforms
CHECK_DEADLOCK TRUE
