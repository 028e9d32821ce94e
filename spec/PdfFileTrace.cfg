INIT JInit
NEXT JNext
CONSTANTS
  InitOf <- PfInit
  Bad <- PfBad
  Step <- PfStep
  Hit <- PfHit
CHECK_DEADLOCK FALSE
