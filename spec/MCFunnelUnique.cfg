SPECIFICATION Spec
CONSTANTS K = 3
          Nv = 4
          Mode = "ok"
          From = {}
          Step = 1
INVARIANTS Unique
CHECK_DEADLOCK FALSE
