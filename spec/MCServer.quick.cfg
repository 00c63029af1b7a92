SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT Instances <- QuickInstances
CONSTANT Depth <- QuickDepth
INVARIANT CountIsOpen
INVARIANT TakenAreOpen
INVARIANT EventsInOrder
INVARIANT AbortIsAnswer
INVARIANT Printed
