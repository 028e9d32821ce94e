SPECIFICATION Spec
CONSTANTS
  Fams = {"Ay"}
  Modes = {"n", "b", "i"}
  MaxOps = 4
  Faults = {"none", "last", "stale"}
INVARIANTS Accepted Sharp Emit
CHECK_DEADLOCK FALSE
