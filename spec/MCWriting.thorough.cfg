SPECIFICATION Spec
CONSTANT Pieces <- ThoroughPieces
CONSTANT Sinks <- ThoroughSinks
CONSTANT Count = 3
INVARIANTS Same Growing Printed
CHECK_DEADLOCK FALSE
