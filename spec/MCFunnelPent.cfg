SPECIFICATION Spec
CONSTANTS K = 3
          Nv = 5
          Mode = "ok"
          From = {}
          Step = 1
INVARIANTS Correct Triangulated HasEar
CHECK_DEADLOCK FALSE
