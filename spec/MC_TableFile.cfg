SPECIFICATION Spec
INVARIANTS ReadsLast NoStaleZip
PROPERTIES Frame
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxOps = 2
  Emit = TRUE
