INIT JInit
NEXT JNext
CONSTANTS
  InitOf <- NtInit
  Bad <- NtBad
  Step <- NtStep
  Hit <- NtHit
CHECK_DEADLOCK FALSE
