SPECIFICATION Spec
CONSTANTS
  Kinds = {"p1", "p2", "i30", "m30", "m44"}
  MaxEls = 3
  MaxBefore = 6
  PageHeight = 80000
  Fault = "none"
INVARIANTS Accepted Emit
CHECK_DEADLOCK FALSE
PROPERTIES Ends
