CONSTANT Focus = "C03"
INIT Init
NEXT Next
INVARIANT Conforms
CHECK_DEADLOCK TRUE
