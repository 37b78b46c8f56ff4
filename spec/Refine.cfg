SPECIFICATION Spec
INVARIANT Answered
INVARIANT Starts
INVARIANT SameAsFresh
INVARIANT Progress
INVARIANT CircuitAttains
INVARIANT Optimal
INVARIANT SameThroughput
INVARIANT CriticalClosed
INVARIANT CriticalAttains
INVARIANT Complete
CHECK_DEADLOCK FALSE
