SPECIFICATION Spec
CONSTANTS Keys = {0, 1, 3}
          MaxLen = 5
          Stable = TRUE
INVARIANT Grouped
CHECK_DEADLOCK FALSE
