INIT Init
NEXT Next
INVARIANT Placed
