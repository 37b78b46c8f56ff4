SPECIFICATION Spec
INVARIANT Answers
INVARIANT Numbered
INVARIANT Labelled
INVARIANT Firing
INVARIANT Carry
INVARIANT AfterFiring
INVARIANT InSequence
INVARIANT AllSent
INVARIANT Whole
INVARIANT InputsThere
INVARIANT Relevant
INVARIANT Finished
CHECK_DEADLOCK FALSE
