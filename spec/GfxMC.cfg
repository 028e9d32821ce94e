SPECIFICATION Spec
CONSTANTS
  Kinds = {"t", "j", "u", "r", "i"}
  Most = 3
  Faults = {"none", "unwrap", "cache", "tw", "dash", "font", "image", "open", "nest"}
INVARIANTS Accepted Sharp Emit

CHECK_DEADLOCK FALSE
