SPECIFICATION Spec
CONSTANTS
  Segs = {"a", "b"}
  MaxLen = 3
  Targets = {"x"}
INVARIANT Refines Minimal
PROPERTY Local
CHECK_DEADLOCK FALSE
