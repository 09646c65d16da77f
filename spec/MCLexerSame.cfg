SPECIFICATION Spec
CONSTANTS Alphabet = {34, 92, 48, 49, 46, 10, 110}
          N = 5
          MaxInt <- Eleven
          Mode = "ok"
INVARIANTS Correct Same
CHECK_DEADLOCK FALSE
