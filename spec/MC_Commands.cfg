INIT Init
NEXT Next
INVARIANTS Ordered Faithful Together Report
PROPERTIES Looking Kept
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxOps = 2
  Emit = TRUE
