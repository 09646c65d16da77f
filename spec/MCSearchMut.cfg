SPECIFICATION Spec
CONSTANTS N = 3
          M = 4
          W = 2
          Mode = "early"
INVARIANTS Correct NoRepeats
CHECK_DEADLOCK FALSE
