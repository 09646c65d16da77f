SPECIFICATION Spec
CONSTANTS N = 4
          M = 5
          Leaders = TRUE
INVARIANTS Downward Correct Sound
CHECK_DEADLOCK FALSE
