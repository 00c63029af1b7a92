SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT Instances <- ThoroughInstances
CONSTANT Depth <- ThoroughDepth
INVARIANT CountIsOpen
INVARIANT TakenAreOpen
INVARIANT EventsInOrder
INVARIANT AbortIsAnswer
INVARIANT Printed
