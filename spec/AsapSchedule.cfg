CONSTANTS
  AnyOrder = FALSE
SPECIFICATION ASpec
INVARIANTS
  Inputs
  TokensNonNegative
  NoOverlap
  InOrder
  SameRate
  EarliestStarts
  PeriodOk
CHECK_DEADLOCK FALSE
