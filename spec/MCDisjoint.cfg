SPECIFICATION Spec
CONSTANTS N = 3
          M = 5
          Leaders = TRUE
INVARIANTS Downward Correct Sound
CHECK_DEADLOCK FALSE
