SPECIFICATION Spec
CONSTANTS Alphabet = {34, 92, 110, 49, 46, 45, 62, 97, 32, 64}
          N = 4
          MaxInt <- Eleven
          Mode = "ok"
INVARIANTS Correct Prefix Covers Same
CHECK_DEADLOCK FALSE
PROPERTY Ends
