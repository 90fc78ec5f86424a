CONSTANT Focus = "C20"
INIT Init
NEXT Next
INVARIANT Conforms
CHECK_DEADLOCK TRUE
