SPECIFICATION Spec
CONSTANTS N = 3
          M = 3
          H = 3
INVARIANTS Correct Teeth BySame
CHECK_DEADLOCK FALSE
