INIT Init
NEXT Next
INVARIANT Conforms
ALIAS Brief
CHECK_DEADLOCK FALSE
