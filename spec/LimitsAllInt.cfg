SPECIFICATION Spec
CONSTANTS
  Vary = {"ms", "mw", "mm", "cs", "cw", "cm", "n"}
  Sizes = {8, 12}
  Caps = {7, 30, 44}
  Counts = {0, 2, 9}
INVARIANT Sound Emit
CHECK_DEADLOCK FALSE
