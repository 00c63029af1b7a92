SPECIFICATION Spec
CONSTANTS
  Depth = 5
  Routes <- ThoroughRoutes
  Namings <- QuickNamings
INVARIANTS Whole OneMarkEach Restored Numbered Named
CHECK_DEADLOCK FALSE
