SPECIFICATION Spec
CONSTANTS N = 4
          M = 5
INVARIANT Correct
CHECK_DEADLOCK FALSE
