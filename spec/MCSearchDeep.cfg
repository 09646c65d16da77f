SPECIFICATION Spec
CONSTANTS N = 4
          M = 5
          W = 2
          Mode = "ok"
INVARIANTS Correct NoRepeats
CHECK_DEADLOCK FALSE
