INIT Init
NEXT Next
INVARIANTS RoundTrip Accepted Rounded
CHECK_DEADLOCK FALSE
CONSTANT Which = "rest"
