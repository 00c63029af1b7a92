SPECIFICATION Spec
CONSTANTS
  Groups <- ThoroughGroups
  Members <- MembersOf
  Emit = TRUE
INVARIANTS Correct OfferedInOrder RestoredPosition OneAnswer
CHECK_DEADLOCK FALSE
