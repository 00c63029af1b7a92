SPECIFICATION Spec
CONSTANTS
  Family = "reads"
  MaxOps = 3
  Fills = {0, 1, 3, 100}
INVARIANTS InOrder Whole EndsStay CutIsNoticed
CHECK_DEADLOCK FALSE
