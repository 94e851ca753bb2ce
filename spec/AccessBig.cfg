SPECIFICATION Spec
CONSTANTS
  Users = {"u", "v"}
  Clusters = {"k1", "k2"}
  MaxAge = 2
  MaxTime = 4
  MaxSess = 1
INVARIANT Sound
PROPERTY Step
CHECK_DEADLOCK FALSE
