SPECIFICATION Spec
CONSTANTS
  Family = "parts"
  MaxOps = 2
  Fills = {0, 1, 3, 100}
INVARIANTS InOrder Whole EndsStay CutIsNoticed
CHECK_DEADLOCK FALSE
