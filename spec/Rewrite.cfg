SPECIFICATION Spec
INVARIANTS
  Shape
  Same
CHECK_DEADLOCK FALSE
