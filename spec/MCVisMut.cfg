SPECIFICATION Spec
CONSTANTS K = 2
          First = {3, 4}
          Second = {1, 2, 3}
          Mode = "open"
INVARIANT VertexPairs
CHECK_DEADLOCK FALSE
