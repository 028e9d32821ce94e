SPECIFICATION Spec
CONSTANTS
  Shapes = {"grid", "rows", "cols", "both", "after"}
  Sizes = {1, 2, 4, 9}
  Starts = {60000, 27000}
  PageHeight = 60000
  Fault = "none"
INVARIANTS Accepted Emit
CHECK_DEADLOCK FALSE
