SPECIFICATION Spec
CONSTANTS
  Max = 5
  Swapped = FALSE
INVARIANT NoLoss
PROPERTY Delivered
CHECK_DEADLOCK FALSE
