INIT Init
NEXT Next
INVARIANT Seen
INVARIANT Rest
PROPERTY Local
CHECK_DEADLOCK FALSE
CONSTANTS
  Depth = 2
  Props = {"default", "null", "lang", "separator", "required", "ordered", "datatype", "aboutUrl", "propertyUrl", "valueUrl", "textDirection"}
  Emit = TRUE
