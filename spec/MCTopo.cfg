SPECIFICATION Spec
CONSTANTS N = 3
          M = 4
          Clear = TRUE
INVARIANTS Asserted Correct
PROPERTY Terminates
CHECK_DEADLOCK FALSE
