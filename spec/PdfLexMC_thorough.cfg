SPECIFICATION Spec
CONSTANTS
  MaxStr = 4
  StrBytes = {97, 40, 41, 92, 13, 10, 110, 48}
  Deep = TRUE
INVARIANTS NoError ReadsBack Emit
CHECK_DEADLOCK FALSE
