CONSTANT Focus = "C32"
INIT Init
NEXT Next
INVARIANT Conforms
CHECK_DEADLOCK TRUE
