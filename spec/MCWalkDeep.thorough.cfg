SPECIFICATION Spec
CONSTANTS
  Depth = 7
  Routes <- QuickRoutes
  Namings <- QuickNamings
INVARIANTS Whole OneMarkEach Restored Numbered Named
CHECK_DEADLOCK FALSE
