CONSTANT MaxLen = 3
INIT Init
NEXT Next
INVARIANTS SameLines NoHistory Terminated Complete
CHECK_DEADLOCK FALSE
