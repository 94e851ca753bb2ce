SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS N=5 Whole=TRUE
INVARIANTS NoneLeft OutsideSafe
PROPERTIES Returns
