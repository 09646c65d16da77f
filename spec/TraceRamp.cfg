SPECIFICATION TSpec
CONSTANTS Vals = {1}
          MaxKeys = 1
          MaxVals = 1
POSTCONDITION Report
CHECK_DEADLOCK FALSE
