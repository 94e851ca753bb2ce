SPECIFICATION Spec
CONSTANTS
  Keys = {"a", "b"}
  Vals = {"x", "y"}
  Followers = {"f"}
  Keep = 2
  MaxLog = 4
  MaxInc = 1
  Seeded = TRUE
INVARIANT Faithful
CHECK_DEADLOCK FALSE
