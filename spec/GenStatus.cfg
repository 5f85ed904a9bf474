SPECIFICATION GenSpec
CONSTANTS N = 0
          M = 0
INVARIANT Emit
CHECK_DEADLOCK FALSE
