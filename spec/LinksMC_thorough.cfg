SPECIFICATION Spec
CONSTANTS
  MaxWords = 6
  PerLine = {1, 2, 3}
INVARIANTS Accepted Sharp
CHECK_DEADLOCK FALSE
