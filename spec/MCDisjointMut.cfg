SPECIFICATION Spec
CONSTANTS N = 3
          M = 5
          Leaders = FALSE
INVARIANTS Downward Correct
CHECK_DEADLOCK FALSE
