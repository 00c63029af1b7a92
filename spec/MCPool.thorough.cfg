SPECIFICATION Spec
CONSTANTS
  Instances <- ThoroughInstances
  Depth <- ThoroughDepth
INVARIANT InThreads
INVARIANT NeverKept
INVARIANT Printed
CHECK_DEADLOCK FALSE
