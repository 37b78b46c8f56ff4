SPECIFICATION Spec
INVARIANTS
  Complete
  SameMeaning
  WellFormed
CHECK_DEADLOCK FALSE
