SPECIFICATION Spec
CONSTANTS
  Routers <- QuickRouters
  Requests <- QuickRequests
INVARIANTS AnswersOnce HandedBackUntouched NeverSilent
CHECK_DEADLOCK FALSE
