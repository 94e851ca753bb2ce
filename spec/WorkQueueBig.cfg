SPECIFICATION Spec
CONSTANTS
  Items = {a, b, d}
  Consumers = {c1, c2}
  MaxNow = 2
  Delays = {0, 1, 2}
  BaseDelay = 1
  MaxDelay = 3
  MaxFails = 2
INVARIANT Inv
PROPERTY EarliestWins
CHECK_DEADLOCK FALSE
