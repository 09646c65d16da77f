SPECIFICATION Spec
CONSTANTS N = 4
          W = 2
          Mode = "late"
INVARIANT Correct
CHECK_DEADLOCK FALSE
