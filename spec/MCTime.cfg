SPECIFICATION MCSpec
CONSTANT Depth = 0
INVARIANTS TellsInstant Sixteen Between
CHECK_DEADLOCK FALSE
