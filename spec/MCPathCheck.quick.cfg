SPECIFICATION Spec
CONSTANTS
  Tokens <- QuickTokens
  Length = 5
  Bases <- SomeBases
INVARIANTS Contained Arrives Accepts
CHECK_DEADLOCK FALSE
