SPECIFICATION GSpec
INVARIANT Emit
CONSTRAINT Stop
CHECK_DEADLOCK FALSE
