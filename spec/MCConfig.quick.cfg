SPECIFICATION Spec
CONSTANTS
  Makes <- QuickMakes
  Ports = {0, 80, 443}
  MaxPorts = 1
  MaxSet = 3
  Opens = {1, 2, 8}
INVARIANT OnlyThePort
INVARIANT Independent
INVARIANT Printed
CHECK_DEADLOCK FALSE
