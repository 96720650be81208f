INIT Init
NEXT Next
INVARIANT Lawful
CHECK_DEADLOCK FALSE
