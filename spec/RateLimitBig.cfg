SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS Bs={1,2,3,4} Us={1,2,3,5} Horizon=9 MaxReq=8
INVARIANTS Budget Order Exact
