CONSTANTS
  D = 2
  M = 3
  T = 4
SPECIFICATION Spec
INVARIANTS
  Answered
  ResultSet
  WorkList
  SatSet
  UnsatSet
  Knees
  Answers
CHECK_DEADLOCK FALSE
