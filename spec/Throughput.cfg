CONSTANTS
  AnyOrder = FALSE
SPECIFICATION Spec
INVARIANTS
  Inputs
  TokensNonNegative
  NeverOverflows
  NoOverlap
  InOrder
  SameRate
  Agrees
CHECK_DEADLOCK FALSE
