SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS Bs={1,2,3} Us={1,2,3} Horizon=7 MaxReq=6
INVARIANTS Budget Order Exact
