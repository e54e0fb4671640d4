INIT Init
NEXT Next
INVARIANT Idempotent
INVARIANT Unordered
INVARIANT Shape
CHECK_DEADLOCK FALSE
CONSTANTS
  Depth = 2
  Places = {"datatype", "dialect", "reference", "common", "schema"}
  Small = TRUE
  Emit = TRUE
