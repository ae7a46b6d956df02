SPECIFICATION Spec
INVARIANT ScalarsOnly OneMember Disjoint
PROPERTY InOrder
CHECK_DEADLOCK FALSE
