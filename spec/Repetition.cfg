CONSTANTS
  AnyOrder = FALSE
SPECIFICATION Spec
INVARIANTS
  Solved
  Answered
  Refused
  Accepted
  RepIsMinimal
  NormBalances
CHECK_DEADLOCK FALSE
