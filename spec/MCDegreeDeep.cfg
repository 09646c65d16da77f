SPECIFICATION Spec
CONSTANTS N = 4
          M = 5
          Max = 3
INVARIANT Correct
CHECK_DEADLOCK FALSE
