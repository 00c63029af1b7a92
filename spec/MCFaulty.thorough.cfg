SPECIFICATION Spec
CONSTANTS
  Sinks <- ThoroughSinks
  Pieces <- ThoroughPieces
  Held <- QuickHeld
  Caps <- ThoroughCaps
  Count = 2
INVARIANTS Functional Beginnings Honest Reason NoMore Printed
CHECK_DEADLOCK FALSE
