SPECIFICATION Spec
INVARIANTS
  Answered
  Repeatable
  InBounds
  Consistent
  Live
  Layered
CHECK_DEADLOCK FALSE
