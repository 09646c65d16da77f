SPECIFICATION Spec
CONSTANTS Prios = {1, 2}
          MaxIns = 3
INVARIANTS Agree BulkRight
CHECK_DEADLOCK FALSE
