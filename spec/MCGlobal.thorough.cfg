SPECIFICATION Spec
CONSTANTS
  Types = {0, 1, 2, 5, 12, 13}
  Depth <- ThoroughDepth
  Sizes = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12}
  Patterns = {"distinct", "reverse", "same", "alternate", "bracket"}
INVARIANTS Represents OneEach Others Latest
CHECK_DEADLOCK FALSE
