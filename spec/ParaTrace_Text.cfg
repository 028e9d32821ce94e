INIT JInit
NEXT JNext
CONSTANTS
  InitOf <- PaInit
  Bad <- PaText
  Step <- PaStep
  Hit <- PaHit
CHECK_DEADLOCK FALSE
