SPECIFICATION Spec
CONSTANTS
  Sinks <- QuickSinks
  Pieces <- QuickPieces
  Held <- QuickHeld
  Caps <- QuickCaps
  Count = 2
INVARIANTS Functional Beginnings Honest Reason NoMore Printed
CHECK_DEADLOCK FALSE
