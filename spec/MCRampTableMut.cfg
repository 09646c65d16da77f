SPECIFICATION Spec
CONSTANTS Vals = {1, 2}
          MaxKeys = 4
          MaxVals = 5
          Eager = TRUE
INVARIANTS Monotone PairsOk
CHECK_DEADLOCK FALSE
