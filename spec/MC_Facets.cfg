INIT Init
NEXT Next
INVARIANTS Antisym Trans Empty Excludes Reachable
CHECK_DEADLOCK FALSE
