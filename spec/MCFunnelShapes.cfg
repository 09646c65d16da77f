SPECIFICATION Spec
CONSTANTS K = 45
          Nv = 0
          Mode = "ok"
          From = {1, 3, 5, 6}
          Step = 17
INVARIANTS Correct Triangulated HasEar
CHECK_DEADLOCK FALSE
