INIT Init
NEXT Next
INVARIANTS Ordered Faithful Together Report
PROPERTIES Looking Kept
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxOps = 3
  Emit = TRUE
