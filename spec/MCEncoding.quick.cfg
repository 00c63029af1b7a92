CONSTANT Bytes = {97, 32, 43, 38, 37, 255}
CONSTANT Length = 3
CONSTANT Count = 2
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT RoundTrip
