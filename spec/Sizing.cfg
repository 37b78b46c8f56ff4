CONSTANTS
  AnyOrder = FALSE
SPECIFICATION Spec
INVARIANTS
  Inputs
  TokensNonNegative
  NeverOverflows
  NoOverlap
  InOrder
  SameRate
  Sustained
  TotalIsSum
  WithinTotal
  RefusedIfTooFast
  NotLarger
  Kept
CHECK_DEADLOCK FALSE
