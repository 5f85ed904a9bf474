SPECIFICATION MCSpec
CONSTANTS Addrs = {1, 2, 3}
          MaxClock = 4
          Depth = 0
INVARIANTS OneEach InOrder Latest Ages
PROPERTY Lasting
CHECK_DEADLOCK FALSE
