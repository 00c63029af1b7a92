SPECIFICATION Spec
CONSTANTS
  Tokens <- ThoroughTokens
  Length = 6
  Bases <- SomeBases
INVARIANTS Contained Arrives Accepts
CHECK_DEADLOCK FALSE
