SPECIFICATION Spec
CONSTANTS Turn = 120
          Mode = "half"
INVARIANTS Correct Quarters
CHECK_DEADLOCK FALSE
