SPECIFICATION Spec
CONSTANTS N = 4
          W = 3
          Mode = "ok"
INVARIANTS Correct Meets Final
CHECK_DEADLOCK FALSE
