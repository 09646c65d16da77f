SPECIFICATION TSpec
CONSTANTS Prios = {1}
          MaxIns = 1
POSTCONDITION Report
CHECK_DEADLOCK FALSE
