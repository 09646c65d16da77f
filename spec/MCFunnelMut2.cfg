SPECIFICATION Spec
CONSTANTS K = 45
          Nv = 0
          Mode = "late"
          From = {6}
          Step = 17
INVARIANTS Correct Triangulated HasEar
CHECK_DEADLOCK FALSE
