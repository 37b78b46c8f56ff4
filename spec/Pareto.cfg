CONSTANTS
  AnyOrder = FALSE
SPECIFICATION Spec
INVARIANTS
  Inputs
  TokensNonNegative
  NeverOverflows
  NoOverlap
  InOrder
  SameRate
  WellListed
  Agrees
  SizeIsTotal
  Covered
  NoneDominated
  Reached
CHECK_DEADLOCK FALSE
