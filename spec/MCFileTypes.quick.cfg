SPECIFICATION Spec
CONSTANTS
  Family = "types"
  Statuses = {200}
  Sizes = {1}
  Presets <- SomePresets
INVARIANTS WholeOrNothing Bypassed HandedBack Handled HasType
CHECK_DEADLOCK FALSE
