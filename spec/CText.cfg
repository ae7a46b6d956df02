SPECIFICATION Spec
INVARIANT EnvOK MemOK
PROPERTY Grows
CHECK_DEADLOCK FALSE
