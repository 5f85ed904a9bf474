SPECIFICATION Spec
CONSTANTS N = 9
          M = 4
INVARIANTS Nothing Fit Fewest
PROPERTY Ends
CHECK_DEADLOCK FALSE
