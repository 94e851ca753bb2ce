SPECIFICATION Spec
CONSTANTS
  Keys = {"a", "b"}
  Vals = {"x", "y"}
  MaxLog = 4
  MaxInc = 1
  Faults = 3
INVARIANT Faithful
PROPERTY Converges
CHECK_DEADLOCK FALSE
