INIT Init
NEXT Next
INVARIANTS AfterTargets Complete NoCircle
CHECK_DEADLOCK FALSE
CONSTANTS
  N = 3
  Emit = TRUE
