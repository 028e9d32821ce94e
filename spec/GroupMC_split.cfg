SPECIFICATION Spec
CONSTANTS
  Kinds = {"p1", "p2", "i30", "m30", "m44"}
  MaxEls = 3
  MaxBefore = 6
  PageHeight = 80000
  Fault = "split"
INVARIANTS Sharp Emit
CHECK_DEADLOCK FALSE

