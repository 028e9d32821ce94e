SPECIFICATION Spec
CONSTANTS
  MaxWords = 4
  PerLine = {1, 2, 3}
INVARIANTS Accepted Sharp Emit
CHECK_DEADLOCK FALSE
