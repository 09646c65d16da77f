SPECIFICATION Spec
CONSTANTS N = 4
          M = 6
          Clear = TRUE
INVARIANTS Asserted Correct
PROPERTY Terminates
CHECK_DEADLOCK FALSE
