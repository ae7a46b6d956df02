SPECIFICATION Spec
INVARIANT InUse
PROPERTY Stable
CHECK_DEADLOCK FALSE
