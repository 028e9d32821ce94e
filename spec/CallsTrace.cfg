INIT JInit
NEXT JNext
CONSTANTS
  InitOf <- StInit
  Bad <- StBad
  Step <- StStep
  Hit <- StHit
CHECK_DEADLOCK FALSE
