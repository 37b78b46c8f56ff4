SPECIFICATION Spec
INVARIANTS
  Exact
CHECK_DEADLOCK FALSE
