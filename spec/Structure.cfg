SPECIFICATION Spec
INVARIANTS
  EveryCycleListed
  OnlyCyclesListed
  TotalMatches
  Components
  Partition
  Detected
CHECK_DEADLOCK FALSE
