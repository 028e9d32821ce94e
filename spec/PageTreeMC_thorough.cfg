SPECIFICATION Spec
CONSTANTS
  Fan = 6
  MaxOps = 5
  Bulk = {5, 31, 211}
INVARIANTS Accepted Emit
CHECK_DEADLOCK FALSE
