SPECIFICATION Spec
CONSTANTS N = 3
          M = 4
          H = 4
INVARIANTS Correct Teeth BySame
CHECK_DEADLOCK FALSE
