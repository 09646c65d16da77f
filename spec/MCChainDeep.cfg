SPECIFICATION Spec
CONSTANTS N = 4
          M = 6
INVARIANTS ChainVerts Correct
PROPERTY Terminates
CHECK_DEADLOCK FALSE
