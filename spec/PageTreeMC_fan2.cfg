SPECIFICATION Spec
CONSTANTS
  Fan = 2
  MaxOps = 4
  Bulk = {2, 3, 7}
INVARIANTS Accepted Emit
CHECK_DEADLOCK FALSE
