SPECIFICATION Spec
CONSTANTS
  Keys <- QuickKeys
  Values <- QuickValues
  Depth = 0
  Alphabet <- Letters
  Length = 3
  Family = "values"
INVARIANTS IsMap Follows_ LatestInsert RemovedIsGone Told
CHECK_DEADLOCK FALSE
