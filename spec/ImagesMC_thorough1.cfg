SPECIFICATION Spec
CONSTANTS
  Segs = {"app", "thumb", "huff", "arith", "jpg", "rgb", "cmyk", "grey"}
  MaxSegs = 2
  MaxOps = 1
  Sizes <- AllSizes
  Moves = {"bottom", "next"}
  Faults = {"none", "near", "last", "sides", "gray", "each", "mix", "squash", "stay", "lose"}
INVARIANTS Accepted Sharp Emit
CHECK_DEADLOCK FALSE
