SPECIFICATION Spec
CONSTANTS N = 3
          M = 4
          K = 6
INVARIANT PrefixOk
CHECK_DEADLOCK FALSE
