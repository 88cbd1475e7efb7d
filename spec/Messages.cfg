INIT Init
NEXT Next
INVARIANT Accepted
INVARIANT Open
CHECK_DEADLOCK FALSE
