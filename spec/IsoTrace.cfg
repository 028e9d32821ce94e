INIT JInit
NEXT JNext
CONSTANTS
  InitOf <- IsInit
  Bad <- IsBad
  Step <- IsStep
  Hit <- IsHit
CHECK_DEADLOCK FALSE
