SPECIFICATION Spec
CONSTANTS
  Family = "sending"
  Statuses = {200, 201, 203, 400, 404, 418, 500, 503}
  Sizes = {0, 1, 511, 512, 8191, 8192, 8193, 65535, 65536, 65537, 300000}
  Presets <- SomePresets
INVARIANTS WholeOrNothing Bypassed HandedBack Handled HasType
CHECK_DEADLOCK FALSE
