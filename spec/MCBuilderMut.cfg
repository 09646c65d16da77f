SPECIFICATION Spec
CONSTANTS Keys = {0, 1, 3}
          MaxLen = 5
          Stable = FALSE
INVARIANT Grouped
CHECK_DEADLOCK FALSE
