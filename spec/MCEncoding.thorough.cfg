CONSTANT Bytes = {97, 32, 43, 38, 61, 37, 35, 47, 195, 255, 0}
CONSTANT Length = 3
CONSTANT Count = 3
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT RoundTrip
