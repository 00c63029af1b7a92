SPECIFICATION Spec
CONSTANTS
  Groups <- QuickGroups
  Members <- MembersOf
  Emit = TRUE
INVARIANTS Correct OfferedInOrder RestoredPosition OneAnswer
CHECK_DEADLOCK FALSE
