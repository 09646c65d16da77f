SPECIFICATION Spec
CONSTANTS Vals = {1, 2}
          MaxKeys = 4
          MaxVals = 5
          Eager = FALSE
INVARIANTS Monotone PairsOk
PROPERTY Refines
CHECK_DEADLOCK FALSE
