SPECIFICATION Spec
PROPERTY Own
PROPERTY Fresh
CHECK_DEADLOCK FALSE
