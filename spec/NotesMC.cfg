SPECIFICATION Spec
CONSTANTS
  Kinds = {"a", "b", "c", "d"}
  MaxPars = 3
  Columns = 1
  Faults = {"none", "first", "over", "lose", "again", "count", "stale", "order"}
INVARIANTS Accepted Sharp Emit

CHECK_DEADLOCK FALSE
