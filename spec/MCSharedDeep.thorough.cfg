SPECIFICATION Spec
CONSTANTS
  Instances <- All
  Requests <- Least
  Conns = {1, 2, 3}
  MaxTakes = 4
  Emit = TRUE
INVARIANTS AsAlone EndsAsAlone Repeatable NeverWaits
PROPERTIES Constant
CHECK_DEADLOCK FALSE
