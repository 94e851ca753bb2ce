SPECIFICATION Spec
CONSTANTS
  Max = 2
  Swapped = FALSE
INVARIANT NoLoss
PROPERTY Delivered
CHECK_DEADLOCK FALSE
