SPECIFICATION MCSpec
CONSTANTS N = 7
          Depth = 0
INVARIANTS RangesSound HolesSound Complete
PROPERTY GrowOnly
CHECK_DEADLOCK FALSE
