CONSTANTS
  D = 2
  M = 3
  T = 4
  Steps = 24
SPECIFICATION Spec
INVARIANT Emit
CHECK_DEADLOCK FALSE
