SPECIFICATION Spec
CONSTANTS Alphabet = {34, 92, 110, 49, 46, 45, 62, 97, 32, 64}
          N = 4
          MaxInt <- Eleven
          Mode = "esc"
INVARIANTS Correct Prefix Covers
CHECK_DEADLOCK FALSE
