SPECIFICATION Spec
CONSTANTS Turn = 480
          Mode = "ok"
INVARIANTS Correct Quarters
CHECK_DEADLOCK FALSE
