SPECIFICATION Spec
INVARIANTS
  Formed
  InputsThere
  NoOverlap
  InOrder
  RateMatches
CHECK_DEADLOCK FALSE
