SPECIFICATION Spec
CONSTANTS
  Segs = {"a", "b"}
  MaxLen = 2
  Targets = {"x", "y"}
INVARIANT Refines Minimal
PROPERTY Local
CHECK_DEADLOCK FALSE
