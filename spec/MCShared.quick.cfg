SPECIFICATION Spec
CONSTANTS
  Instances <- All
  Requests <- Quick
  Conns = {1, 2}
  MaxTakes = 3
  Emit = TRUE
INVARIANTS AsAlone EndsAsAlone Repeatable NeverWaits
PROPERTIES Constant
CHECK_DEADLOCK FALSE
