SPECIFICATION Spec
CONSTANTS Turn = 120
          Mode = "none"
INVARIANTS Correct Quarters
CHECK_DEADLOCK FALSE
