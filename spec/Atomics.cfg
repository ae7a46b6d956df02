SPECIFICATION Spec
INVARIANT Sizes
PROPERTY One
CHECK_DEADLOCK FALSE
