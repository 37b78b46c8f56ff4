SPECIFICATION Spec
INVARIANTS
  Answered
  TasksAreThose
  ChansAreThose
  Adjacency
  Lookups
  Derived
  Answers
  CoherentGraph
CHECK_DEADLOCK FALSE
