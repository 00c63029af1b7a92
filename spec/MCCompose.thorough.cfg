SPECIFICATION Spec
CONSTANTS
  Routers <- ThoroughRouters
  Requests <- ThoroughRequests
INVARIANTS AnswersOnce HandedBackUntouched NeverSilent
CHECK_DEADLOCK FALSE
