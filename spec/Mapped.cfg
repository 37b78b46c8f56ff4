SPECIFICATION Spec
INVARIANT Answered
INVARIANT Shown
INVARIANT NothingElse
INVARIANT OwnColour
INVARIANT OneColour
INVARIANT Plain
INVARIANT Apart
INVARIANT Arrows
INVARIANT NoOther
CHECK_DEADLOCK FALSE
