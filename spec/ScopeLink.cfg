SPECIFICATION Spec
INVARIANT Stable
INVARIANT OneExternal
PROPERTY Restored
CHECK_DEADLOCK FALSE
