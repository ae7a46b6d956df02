SPECIFICATION Spec
CONSTANTS
  NKeys = 3
  InitCap = 8
  MaxOps = 6
  High = 1000
  Low = 50
  Emit = TRUE
CHECK_DEADLOCK FALSE
CONSTRAINT OneHash
