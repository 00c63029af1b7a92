CONSTANT Instances <- QuickInstances
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Answered Framed CrashIsNoSuccess AbortIsReported NoAbortNoError SizedIsChunked SplitIsConcatenation ContentInPlace
PROPERTIES OneHead BodyGrows
