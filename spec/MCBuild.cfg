SPECIFICATION Spec
CONSTANTS N = 3
          M = 4
INVARIANT Correct
CHECK_DEADLOCK FALSE
