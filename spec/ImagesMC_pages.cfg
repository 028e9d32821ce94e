SPECIFICATION Spec
CONSTANTS
  Segs = {"cmyk"}
  MaxSegs = 0
  MaxOps = 4
  Sizes <- OneSize
  Moves = {"bottom"}
  Faults = {"none", "again", "lose"}
INVARIANTS Accepted Sharp Emit
CHECK_DEADLOCK FALSE
