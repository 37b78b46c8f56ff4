SPECIFICATION Spec
INVARIANTS
  EveryStepEnds
  AnalysesChangeNothing
  FreshCopiesAreCopies
  AnswersOfTheGraphOnly
CHECK_DEADLOCK FALSE
