SPECIFICATION Spec
CONSTANTS
  Kinds = {"a", "b", "c", "d"}
  MaxPars = 5
  Columns = 1
  Faults = {"none"}
INVARIANTS Accepted Sharp Emit

CHECK_DEADLOCK FALSE
