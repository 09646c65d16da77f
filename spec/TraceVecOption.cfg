SPECIFICATION TSpec
CONSTANTS Items = {1}
          MaxLen = 1
POSTCONDITION Report
CHECK_DEADLOCK FALSE
