SPECIFICATION Spec
INVARIANT Answered
INVARIANT MinAttained
INVARIANT MaxAttained
INVARIANT NoneSmaller
INVARIANT NoneLarger
INVARIANT CertifiedMin
INVARIANT CertifiedMax
INVARIANT NoCircuitMissed
INVARIANT StartsSatisfy
CHECK_DEADLOCK FALSE
