INIT TInit
NEXT TNext
CHECK_DEADLOCK FALSE
CONSTANTS
  InitOf <- DsvInit
  StepOf <- DsvStep
