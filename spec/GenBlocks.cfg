SPECIFICATION MCSpec
CONSTANTS MaxOff = 2
          Depth = 4
INVARIANT Emit
CHECK_DEADLOCK FALSE
