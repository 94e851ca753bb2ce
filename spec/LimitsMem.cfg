SPECIFICATION Spec
CONSTANTS
  Vary = {"ms", "mw", "mm", "n"}
  Sizes = {2, 6}
  Caps = {3, 11, 24}
  Counts = {0, 2, 9}
INVARIANT Sound Emit
CHECK_DEADLOCK FALSE
