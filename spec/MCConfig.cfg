SPECIFICATION MCSpec
CONSTANTS Depth = 5
INVARIANT Own
PROPERTY OnlyThat
CHECK_DEADLOCK FALSE
