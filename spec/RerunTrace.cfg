INIT JInit
NEXT JNext
CONSTANTS
  InitOf <- RrInit
  Bad <- RrBad
  Step <- RrStep
  Hit <- RrHit
CHECK_DEADLOCK FALSE
