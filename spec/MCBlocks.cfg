SPECIFICATION MCSpec
CONSTANTS MaxOff = 3
          Depth = 5
INVARIANT Same
CHECK_DEADLOCK FALSE
