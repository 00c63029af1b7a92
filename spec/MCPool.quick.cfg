SPECIFICATION Spec
CONSTANTS
  Instances <- QuickInstances
  Depth <- QuickDepth
INVARIANT InThreads
INVARIANT NeverKept
INVARIANT Printed
CHECK_DEADLOCK FALSE
