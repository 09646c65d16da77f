SPECIFICATION Spec
CONSTANTS N = 3
          M = 4
INVARIANTS SlotFree Correct
CHECK_DEADLOCK FALSE
