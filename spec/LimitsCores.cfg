SPECIFICATION Spec
CONSTANTS
  Vary = {"cs", "cw", "cm", "n"}
  Sizes = {8, 12}
  Caps = {3, 11, 32}
  Counts = {0, 2, 9}
INVARIANT Sound Emit
CHECK_DEADLOCK FALSE
