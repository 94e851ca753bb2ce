SPECIFICATION Spec
CONSTANTS
  Keys = {"a", "b"}
  Vals = {"x"}
  MaxLog = 3
  MaxInc = 1
  Faults = 2
INVARIANT Faithful
PROPERTY Converges
CHECK_DEADLOCK FALSE
