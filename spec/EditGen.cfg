CONSTANTS
  Steps = 30
  Names = {"a", "b", "c", "d", "e"}
  MaxT = 4
  MaxC = 5
SPECIFICATION Spec
INVARIANTS
  Emit
  Ok
CHECK_DEADLOCK FALSE
