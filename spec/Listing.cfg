SPECIFICATION Spec
INVARIANTS
  Answered
  Understood
  ScriptBuildsTheGraph
  EverythingListed
  Figures
  Unchanged
CHECK_DEADLOCK FALSE
