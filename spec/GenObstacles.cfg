SPECIFICATION Spec
CONSTANTS K = 2
          First = {3, 4}
          Second = {1, 2, 3}
          Mode = "ok"
INVARIANT Emit
CHECK_DEADLOCK FALSE
