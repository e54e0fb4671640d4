INIT Init
NEXT Next
INVARIANT Anywhere
INVARIANT Always
INVARIANT Never
CHECK_DEADLOCK FALSE
