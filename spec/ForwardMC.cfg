SPECIFICATION Spec
CONSTANTS
  Reqs = {"r1", "r2"}
  Clusters = {"k1", "k2"}
  Max = 3
INVARIANT Once Bounded FailedOnlyIf Honest
PROPERTY Final Answered
CHECK_DEADLOCK FALSE
