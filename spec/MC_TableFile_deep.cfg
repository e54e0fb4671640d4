SPECIFICATION Spec
INVARIANTS ReadsLast NoStaleZip
PROPERTIES Frame
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxOps = 3
  Emit = FALSE
