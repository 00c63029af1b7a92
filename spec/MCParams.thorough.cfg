SPECIFICATION Spec
CONSTANTS
  Keys <- QuickKeys
  Values <- QuickValues
  Depth = 3
  Alphabet <- Letters
  Length = 0
  Family = "histories"
INVARIANTS IsMap Follows_ LatestInsert RemovedIsGone Told
CHECK_DEADLOCK FALSE
