SPECIFICATION GSpec
CONSTANTS Vals = {1, 2, 3, 4, 5, 6, 7, 8, 9}
          MaxKeys = 12
          MaxVals = 60
INVARIANT Emit
CHECK_DEADLOCK FALSE
