SPECIFICATION Spec
INVARIANTS Complete Leads Distinct
CHECK_DEADLOCK FALSE
