SPECIFICATION Spec
INVARIANT PcOK
INVARIANT MemOK
INVARIANT EnvOK
PROPERTY Frames
CHECK_DEADLOCK FALSE
