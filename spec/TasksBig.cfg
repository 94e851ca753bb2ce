SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS N=5 Whole=FALSE
INVARIANTS NoneLeft OutsideSafe
PROPERTIES Returns
