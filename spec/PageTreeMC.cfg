SPECIFICATION Spec
CONSTANTS
  Fan = 6
  MaxOps = 4
  Bulk = {5, 31, 37}
INVARIANTS Accepted Emit
CHECK_DEADLOCK FALSE
