SPECIFICATION Spec
CONSTANTS K = 2
          First = {3, 4}
          Second = {1, 2, 3}
          Mode = "ok"
INVARIANTS VertexPairs PointToVertex
CHECK_DEADLOCK FALSE
