SPECIFICATION Spec
INVARIANT Ends
INVARIANT SameTimes
INVARIANT Averages
INVARIANT Replays
INVARIANT AllDelivered
CHECK_DEADLOCK FALSE
