SPECIFICATION GenSpec
CONSTANTS Depth = 2
INVARIANT Emit
CHECK_DEADLOCK FALSE
