INIT JInit
NEXT JNext
CONSTANTS
  InitOf <- LkInit
  Bad <- LkBad
  Step <- LkStep
  Hit <- LkHit
CHECK_DEADLOCK FALSE
