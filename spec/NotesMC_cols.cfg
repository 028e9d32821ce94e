SPECIFICATION Spec
CONSTANTS
  Kinds = {"a", "b", "c", "d"}
  MaxPars = 4
  Columns = 2
  Faults = {"none"}
INVARIANTS Accepted Sharp Emit

CHECK_DEADLOCK FALSE
