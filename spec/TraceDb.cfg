INIT TInit
NEXT TNext
CHECK_DEADLOCK FALSE
CONSTANTS
  InitOf <- DbInit
  StepOf <- DbStep
