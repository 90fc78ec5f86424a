CONSTANT Focus = "C18"
INIT Init
NEXT Next
INVARIANT Conforms
CHECK_DEADLOCK TRUE
