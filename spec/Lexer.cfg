SPECIFICATION Spec
INVARIANT Ordered
PROPERTY Progress
CHECK_DEADLOCK FALSE
