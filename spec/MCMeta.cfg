SPECIFICATION MCSpec
CONSTANTS Depth = 0
INVARIANTS Sendable Truthful
CHECK_DEADLOCK FALSE
