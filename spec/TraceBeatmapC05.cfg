CONSTANT Focus = "C05"
INIT Init
NEXT Next
INVARIANT Conforms
CHECK_DEADLOCK TRUE
