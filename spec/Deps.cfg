SPECIFICATION Spec
INVARIANT SourceListed
INVARIANT NoBareBlank
CHECK_DEADLOCK FALSE
