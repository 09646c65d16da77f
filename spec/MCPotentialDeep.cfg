SPECIFICATION GSpec
CONSTANTS N = 3
          M = 4
          W = 2
          P = 5
INVARIANTS GraphSame MatrixSame
CHECK_DEADLOCK FALSE
