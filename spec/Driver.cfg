SPECIFICATION Spec
CONSTANTS
  Wide = {"c", "cbad", "cmiss", "cdir", "cas", "s", "smiss", "sas", "o", "a", "so", "l", "wl", "unk"}
  MaxWide = 2
  Narrow = {"c", "cbad", "cas", "s", "o", "l"}
  MaxNarrow = 3
INVARIANT NoTmpLeft
INVARIANT StatusOK
INVARIANT StatusBad
INVARIANT InOrder
PROPERTY Ends
CHECK_DEADLOCK FALSE
