INIT JInit
NEXT JNext
CONSTANTS
  InitOf <- PtInit
  Bad <- PtBad
  Step <- PtStep
  Hit <- PtHit
CHECK_DEADLOCK FALSE
