SPECIFICATION Spec
CONSTANTS
  Shapes = {"grid", "rows", "cols", "both", "after"}
  Sizes = {1, 4}
  Starts = {60000, 27000}
  PageHeight = 60000
  Fault = "lose"
INVARIANTS Sharp Emit
CHECK_DEADLOCK FALSE
