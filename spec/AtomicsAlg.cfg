SPECIFICATION Spec
CONSTANTS N = 3  Max = 2  Plain = FALSE
INVARIANT Linear
PROPERTY Finish
CHECK_DEADLOCK FALSE
