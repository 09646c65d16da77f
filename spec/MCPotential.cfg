SPECIFICATION GSpec
CONSTANTS N = 3
          M = 3
          W = 1
          P = 4
INVARIANTS GraphSame MatrixSame
CHECK_DEADLOCK FALSE
