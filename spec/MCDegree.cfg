SPECIFICATION Spec
CONSTANTS N = 3
          M = 4
          Max = 3
INVARIANT Correct
CHECK_DEADLOCK FALSE
