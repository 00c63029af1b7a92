SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT Instances <- NetInstances
CONSTANT Depth <- NetDepth
INVARIANT CountIsOpen
INVARIANT TakenAreOpen
INVARIANT EventsInOrder
INVARIANT AbortIsAnswer
INVARIANT Printed
