SPECIFICATION Spec
INVARIANT Answered
INVARIANT Weights
INVARIANT Copies
INVARIANT InOrder
INVARIANT Sound
INVARIANT Lazy
INVARIANT Complete
CHECK_DEADLOCK FALSE
