INIT Init
NEXT Next
INVARIANTS RoundTrip Iso Ordered
CHECK_DEADLOCK FALSE
CONSTANT Emit = TRUE
