SPECIFICATION Spec
CONSTANTS
  Docs = {1, 2, 3}
  Builds = 3
  Steps = 3
  Faults = {"none"}
INVARIANTS Accepted Sharp Emit

CHECK_DEADLOCK FALSE
