SPECIFICATION Spec
CONSTANTS K = 45
          Nv = 0
          Mode = "far"
          From = {2}
          Step = 17
INVARIANTS Correct Triangulated HasEar
CHECK_DEADLOCK FALSE
