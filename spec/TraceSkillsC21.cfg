CONSTANT Focus = "C21"
INIT Init
NEXT Next
INVARIANT Conforms
CHECK_DEADLOCK TRUE
