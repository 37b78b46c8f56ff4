SPECIFICATION Spec
INVARIANTS
  Answered
  Follows
  Complete
  NotTooMany
  Written
  Scaled
CHECK_DEADLOCK FALSE
