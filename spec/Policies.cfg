CONSTANTS
  AnyOrder = FALSE
SPECIFICATION Spec
INVARIANTS
  Inputs
  TokensNonNegative
  NoOverlap
  SameRate
  Safe
  Ordered
  Same
  DeadMeansNone
CHECK_DEADLOCK FALSE
