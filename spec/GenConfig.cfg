SPECIFICATION MCSpec
CONSTANTS Depth = 3
INVARIANT Emit
CHECK_DEADLOCK FALSE
