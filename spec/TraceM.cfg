SPECIFICATION TraceSpec
INVARIANT Mark
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
