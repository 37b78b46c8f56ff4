SPECIFICATION Spec
INVARIANTS
  Fine
  Alive
CHECK_DEADLOCK FALSE
