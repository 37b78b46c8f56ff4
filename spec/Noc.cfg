SPECIFICATION Spec
INVARIANT Answered
INVARIANT Mesh
INVARIANT Enough
INVARIANT Mapped
INVARIANT NoGap
INVARIANT Arrives
INVARIANT Minimal
INVARIANT XFirst
INVARIANT Modelled
CHECK_DEADLOCK FALSE
