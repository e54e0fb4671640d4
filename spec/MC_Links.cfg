SPECIFICATION Spec
CONSTANTS
  Emit = TRUE
  All = FALSE
INVARIANT AbsoluteLinks
INVARIANT Rebased
INVARIANT MadeAbsolute
INVARIANT NoQueries
INVARIANT Below
CHECK_DEADLOCK FALSE
