SPECIFICATION GSpec
CONSTANTS Items = {1, 2, 3, 4}
          MaxLen = 40
INVARIANT Emit
CHECK_DEADLOCK FALSE
