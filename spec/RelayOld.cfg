SPECIFICATION Spec
CONSTANTS
  Max = 2
  Swapped = TRUE
INVARIANT NoLoss
PROPERTY Delivered
CHECK_DEADLOCK FALSE
