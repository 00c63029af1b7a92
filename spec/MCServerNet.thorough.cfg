SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT Instances <- DeepNetInstances
CONSTANT Depth <- DeepNetDepth
INVARIANT CountIsOpen
INVARIANT TakenAreOpen
INVARIANT EventsInOrder
INVARIANT AbortIsAnswer
INVARIANT Printed
