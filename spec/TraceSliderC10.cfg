CONSTANT Focus = "C10"
INIT Init
NEXT Next
INVARIANT Conforms
CHECK_DEADLOCK TRUE
