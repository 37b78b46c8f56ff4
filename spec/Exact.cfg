SPECIFICATION Spec
INVARIANTS
  SameValue
  Reduced
  Compared
  Floor Below Above
  Ceil
  Modulo
  Bezout
  Whole
CHECK_DEADLOCK FALSE
