SPECIFICATION Spec
CONSTANTS
  MaxTokens = 4
  Chars = {2, 5, 12}
  Aligns = {"l", "r", "c", "j"}
  Shapes = {1, 2, 3, 4}
INVARIANTS Accepted InOrder SavedIsPlaced Bounded Emit
CHECK_DEADLOCK FALSE
