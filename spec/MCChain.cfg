SPECIFICATION Spec
CONSTANTS N = 3
          M = 4
INVARIANTS ChainVerts Correct
PROPERTY Terminates
CHECK_DEADLOCK FALSE
