INIT JInit
NEXT JNext
CONSTANTS
  InitOf <- DsInit
  Bad <- DsBad
  Step <- DsStep
  Hit <- DsHit
CHECK_DEADLOCK FALSE
