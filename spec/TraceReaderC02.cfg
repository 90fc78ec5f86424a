CONSTANT Focus = "C02"
INIT Init
NEXT Next
INVARIANT Conforms
CHECK_DEADLOCK TRUE
