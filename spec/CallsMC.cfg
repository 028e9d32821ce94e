SPECIFICATION Spec
CONSTANTS
  MaxOps = 3
  Kinds = {"text", "right", "long", "longer", "content", "beside", "there", "color", "page", "wide", "head", "first"}
  Faults = {"none", "sticky", "fixed", "same", "bare", "low", "aside", "late", "drop", "number", "last", "option", "keep"}
INVARIANTS Accepted Sharp Emit
CHECK_DEADLOCK FALSE
