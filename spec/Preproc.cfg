SPECIFICATION Spec
INVARIANT CondsOK
PROPERTY Monotone
CHECK_DEADLOCK FALSE
