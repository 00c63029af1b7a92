SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT Instances <- StressInstances
CONSTANT Depth <- StressDepth
INVARIANT CountIsOpen
INVARIANT TakenAreOpen
INVARIANT EventsInOrder
INVARIANT AbortIsAnswer
INVARIANT Printed
