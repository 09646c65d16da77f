SPECIFICATION Spec
CONSTANTS K = 45
          Nv = 0
          Mode = "ok"
          From = {1, 2, 3, 4, 5, 6}
          Step = 5
INVARIANTS Correct Triangulated HasEar
CHECK_DEADLOCK FALSE
