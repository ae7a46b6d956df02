SPECIFICATION Spec
CONSTANT MaxArgs = 7
INVARIANT Bounds UsedIsPrefix
CHECK_DEADLOCK FALSE
