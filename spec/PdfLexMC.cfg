SPECIFICATION Spec
CONSTANTS
  MaxStr = 3
  StrBytes = {97, 40, 41, 92, 13, 10, 110, 48}
  Deep = FALSE
INVARIANTS NoError ReadsBack Emit
CHECK_DEADLOCK FALSE
