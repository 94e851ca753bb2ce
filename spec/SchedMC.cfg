SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS W={w1,w2} Sizes={0,1,2} Fails=1 Cmds=2 Leaves=1 Sticky=TRUE K=3
INVARIANTS Faithful Kept Bounded
PROPERTIES Told ScaleStops
