CONSTANTS
  D = 2
  M = 3
  T = 2
SPECIFICATION Spec
INVARIANT Inv
CONSTRAINT Few
CHECK_DEADLOCK FALSE
