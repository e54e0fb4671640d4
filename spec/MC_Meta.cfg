INIT Init
NEXT Next
INVARIANT Idempotent
INVARIANT Unordered
INVARIANT Shape
CHECK_DEADLOCK FALSE
CONSTANTS
  Depth = 1
  Places = {"group", "table", "schema", "column", "dialect", "datatype", "common", "titles", "format", "context", "reference", "key", "transformation"}
  Small = FALSE
  Emit = TRUE
