SPECIFICATION Spec
CONSTANTS
  Docs = {1, 2, 3}
  Builds = 2
  Steps = 5
  Faults = {"none", "alias", "counter", "names", "defaults", "borrow", "hash"}
INVARIANTS Accepted Sharp Emit

CHECK_DEADLOCK FALSE
