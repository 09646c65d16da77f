SPECIFICATION Spec
CONSTANTS Alphabet = {34, 92, 110, 49, 46, 45, 62, 97, 32, 64}
          N = 3
          MaxInt <- Eleven
          Mode = "lost"
INVARIANTS Correct Prefix Covers
CHECK_DEADLOCK FALSE
