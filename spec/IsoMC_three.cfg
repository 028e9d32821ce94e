SPECIFICATION Spec
CONSTANTS
  Docs = {1, 2, 3}
  Builds = 3
  Steps = 2
  Faults = {"none"}
INVARIANTS Accepted Sharp Emit

CHECK_DEADLOCK FALSE
