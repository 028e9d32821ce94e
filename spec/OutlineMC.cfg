SPECIFICATION Spec
CONSTANTS
  MaxEntries = 5
  MaxLevel = 4
  OpenLevels = {1, 2, 3, 4}
INVARIANTS Accepted Emit
CHECK_DEADLOCK FALSE
