SPECIFICATION Spec
CONSTANTS
  Depth = 4
  Pieces <- QuickPieces
INVARIANTS Functional Taken Everything Kept Single Printed
CHECK_DEADLOCK FALSE
