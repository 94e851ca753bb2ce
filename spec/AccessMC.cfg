SPECIFICATION Spec
CONSTANTS
  Users = {"u", "v"}
  Clusters = {"k1", "k2"}
  MaxAge = 1
  MaxTime = 2
  MaxSess = 2
INVARIANT Sound
PROPERTY Step
CHECK_DEADLOCK FALSE
