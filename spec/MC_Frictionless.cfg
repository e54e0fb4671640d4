SPECIFICATION Spec
INVARIANTS Same SameMissing NoComments
CHECK_DEADLOCK FALSE
