SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS Ks={1,2,3} Vs={1,2} Caps={0,1,2,3} MaxOps=5
INVARIANTS Bounded Unique Latest Ordered
PROPERTIES EvictsOldest
