SPECIFICATION Spec
CONSTANT Pieces <- QuickPieces
CONSTANT Sinks <- QuickSinks
CONSTANT Count = 3
INVARIANTS Same Growing Printed
CHECK_DEADLOCK FALSE
