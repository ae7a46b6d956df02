SPECIFICATION Spec
INVARIANT InType
INVARIANT DivLaw
INVARIANT CmpLaw
INVARIANT CastLaw
INVARIANT RingLaw
CHECK_DEADLOCK FALSE
