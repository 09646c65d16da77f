SPECIFICATION Spec
CONSTANTS Turn = 120
          Mode = "ok"
INVARIANTS Correct Quarters
CHECK_DEADLOCK FALSE
