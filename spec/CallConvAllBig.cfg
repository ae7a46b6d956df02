SPECIFICATION Spec
CONSTANT MaxArgs = 10
INVARIANT Bounds UsedIsPrefix
CHECK_DEADLOCK FALSE
