CONSTANT K = 5
INIT Init
NEXT Next
INVARIANT Agree
CHECK_DEADLOCK FALSE
