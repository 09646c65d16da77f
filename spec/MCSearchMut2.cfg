SPECIFICATION Spec
CONSTANTS N = 4
          M = 4
          W = 1
          Mode = "nolimit"
INVARIANTS Correct NoRepeats
CHECK_DEADLOCK FALSE
