CONSTANT Focus = "C13"
INIT Init
NEXT Next
INVARIANT Conforms
CHECK_DEADLOCK TRUE
