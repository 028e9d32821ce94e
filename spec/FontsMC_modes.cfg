SPECIFICATION Spec
CONSTANTS
  Fams = {"Ay"}
  Modes = {"n", "b", "i"}
  MaxOps = 3
  Faults = {"none", "last", "default"}
INVARIANTS Accepted Sharp Emit
CHECK_DEADLOCK FALSE
