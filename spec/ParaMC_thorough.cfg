SPECIFICATION Spec
CONSTANTS
  MaxTokens = 6
  Chars = {2, 5, 12}
  Aligns = {"l", "r", "c", "j"}
  Shapes = {1, 2, 3, 4}
INVARIANTS Accepted InOrder SavedIsPlaced Bounded 
CHECK_DEADLOCK FALSE
