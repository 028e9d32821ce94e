SPECIFICATION Spec
CONSTANTS
  Kinds = {"a", "b", "c", "d"}
  MaxPars = 4
  Columns = 1
  Faults = {"none"}
INVARIANTS Accepted Sharp Emit
PROPERTY Ends
CHECK_DEADLOCK FALSE
