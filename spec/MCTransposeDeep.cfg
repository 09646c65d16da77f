SPECIFICATION Spec
CONSTANTS N = 4
          M = 6
INVARIANTS SlotFree Correct
CHECK_DEADLOCK FALSE
