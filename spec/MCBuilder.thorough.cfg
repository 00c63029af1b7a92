SPECIFICATION Spec
CONSTANTS
  Pools <- ThePools
  Probes <- TheProbes
  Lookups <- TheLookups
  MaxSteps = 4
INVARIANTS OnePerPlace Closed Named Reachable MergeIsReplay
CHECK_DEADLOCK FALSE
