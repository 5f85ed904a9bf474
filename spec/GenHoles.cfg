SPECIFICATION GenSpec
CONSTANTS N = 5
          Depth = 3
INVARIANT Emit
CHECK_DEADLOCK FALSE
