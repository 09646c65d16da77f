SPECIFICATION Spec
CONSTANTS N = 3
          M = 4
          Clear = FALSE
INVARIANTS Correct
CHECK_DEADLOCK FALSE
