CONSTANT Focus = "C16"
INIT Init
NEXT Next
INVARIANT Conforms
CHECK_DEADLOCK TRUE
