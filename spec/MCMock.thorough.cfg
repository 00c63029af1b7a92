SPECIFICATION Spec
CONSTANTS
  Depth = 5
  Pieces <- ThoroughPieces
INVARIANTS Functional Taken Everything Kept Single Printed
CHECK_DEADLOCK FALSE
