SPECIFICATION Spec
CONSTANTS
  Family = "types"
  MaxOps = 2
  Fills = {0, 1, 2, 4, 100}
INVARIANTS InOrder Whole EndsStay CutIsNoticed
CHECK_DEADLOCK FALSE
