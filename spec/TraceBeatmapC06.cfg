CONSTANT Focus = "C06"
INIT Init
NEXT Next
INVARIANT Conforms
CHECK_DEADLOCK TRUE
