SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS N=4 Whole=FALSE
INVARIANTS NoneLeft OutsideSafe
PROPERTIES Returns
