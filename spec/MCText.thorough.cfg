SPECIFICATION Spec
CONSTANTS
  Chars = {97, 229, 8364, 128150}
  Starts <- SomeStarts
  Edits <- ThoroughEdits
  Depth = 2
INVARIANTS Classified Concatenated LossyIsText Characters Ordered
CHECK_DEADLOCK FALSE
