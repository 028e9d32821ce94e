SPECIFICATION Spec
CONSTANTS
  Docs = {1, 2, 3}
  Builds = 2
  Steps = 5
  Faults = {"none"}
INVARIANTS Accepted Sharp Emit
PROPERTY Ends
CHECK_DEADLOCK FALSE
