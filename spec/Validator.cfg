SPECIFICATION Spec
INVARIANTS
  RateMatches
  AcceptsValid
  RefusesInvalid
CHECK_DEADLOCK FALSE
