SPECIFICATION GenSpec
CONSTANTS Addrs = {1, 2}
          MaxClock = 9
          Depth = 3
INVARIANT Emit
CHECK_DEADLOCK FALSE
