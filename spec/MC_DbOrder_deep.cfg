INIT Init
NEXT Next
INVARIANTS AfterTargets Complete NoCircle
CHECK_DEADLOCK FALSE
CONSTANTS
  N = 4
  Emit = FALSE
