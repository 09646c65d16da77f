SPECIFICATION Spec
CONSTANTS N = 4
          M = 5
          K = 8
INVARIANT PrefixOk
CHECK_DEADLOCK FALSE
