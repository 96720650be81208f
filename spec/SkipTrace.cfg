INIT Init
NEXT Next
INVARIANT Ordered
