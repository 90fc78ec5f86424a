CONSTANT Focus = "C17"
INIT Init
NEXT Next
INVARIANT Conforms
CHECK_DEADLOCK TRUE
