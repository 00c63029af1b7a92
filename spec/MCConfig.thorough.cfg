SPECIFICATION Spec
CONSTANTS
  Makes <- ThoroughMakes
  Ports = {0, 80, 443}
  MaxPorts = 2
  MaxSet = 5
  Opens = {1, 2, 8}
INVARIANT OnlyThePort
INVARIANT Independent
INVARIANT Printed
CHECK_DEADLOCK FALSE
