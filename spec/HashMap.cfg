SPECIFICATION Spec
CONSTANTS
  NKeys = 4
  InitCap = 4
  MaxOps = 1
  High = 70
  Low = 50
  Emit = FALSE
INVARIANT Agree
INVARIANT NoDup
INVARIANT Room
INVARIANT UsedOK
CHECK_DEADLOCK FALSE
