INIT JInit
NEXT JNext
CONSTANTS
  InitOf <- LxInit
  Bad <- LxBad
  Step <- LxStep
  Hit <- LxHit
CHECK_DEADLOCK FALSE
