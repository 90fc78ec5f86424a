CONSTANT Focus = "C19"
INIT Init
NEXT Next
INVARIANT Conforms
CHECK_DEADLOCK TRUE
